// math: assumed contracts over the reals
def absr(x: real) = if x < 0.0 then -x else x;
def maxr(a: real, b: real) = if a < b then b else a;
def minr(a: real, b: real) = if b < a then b else a;
def sq(x: real) = x * x;
uninterp expf(x: real): real;
uninterp logf(x: real): real;
uninterp log10f(x: real): real;
uninterp log2f(x: real): real;
uninterp powf(x: real, y: real): real;
axiom expPositive "exp is positive" = forall x: real :: {expf(x)} expf(x) > 0.0;
axiom expMonotone "exp is increasing" = forall x, y: real :: {expf(x), expf(y)} x < y ==> expf(x) < expf(y);
axiom logMonotone "log is increasing on positive numbers" = forall x, y: real :: {logf(x), logf(y)} 0.0 < x && x < y ==> logf(x) < logf(y);
extern math.Abs(x) (r) { ensures r == absr(x); }
extern math.Max(a, b) (r) { ensures r == maxr(a, b); }
extern math.Min(a, b) (r) { ensures r == minr(a, b); }
extern math.Exp(x) (r) { ensures r == expf(x); }
extern math.Log(x) (r) { ensures r == logf(x); }
extern math.Log10(x) (r) { ensures r == log10f(x); }
extern math.Log2(x) (r) { ensures r == log2f(x); }
extern math.Pow(x, y) (r) { ensures r == powf(x, y); ensures y == 2.0 ==> r == x * x; ensures y == 1.0 ==> r == x; ensures y == 0.0 ==> r == 1.0; }
extern math.Sqrt(x) (r) { ensures x >= 0.0 ==> r >= 0.0 && r * r == x; ensures r == sqrtf(x); ensures x > 0.0 ==> r > 0.0; }
uninterp sqrtf(x: real): real;
