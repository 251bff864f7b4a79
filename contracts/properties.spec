// what the bounded runs of the replay harness (/verif/replay) stand in for, and the level of each check
property C01 { standin "what the proof takes as given: termination, no overflow, floating-point comparison"; }
property C02 { standin "what the proof takes as given: termination, no overflow, storage not shared with the caller"; }
property C03 { standin "what the proof takes as given: termination, no overflow"; }
property C04 { standin "what the proof takes as given: termination, rounding, equal scores among listed nodes"; }
property C05 { standin "the least-squares fit and the order of residuals of nested fits, assumed by the contracts"; }
property C06 { standin "what the proof takes as given: termination, the least-squares fit in the contract of CreateChild; rounding"; }
property C07 { standin "no selection is listed twice; what the proof takes as given: residuals of fits that depend on the selection alone and do not grow with it (regular), a queue limit that is not reached, termination, rounding"; }
property C08 { standin "what the proof takes as given: termination, no overflow"; }
property C09 { standin "storage shared between matrices and slices"; }
property C10 { standin "what the proof takes as given: termination, copies that share no storage"; }
property C11 { level exploration; standin "CSV reading and writing (encoding/csv, strconv, fmt)"; }
property C12 { level exploration; standin "JSON encoding and decoding (encoding/json)"; }
property C13 { standin "what the proof takes as given: termination, rounding"; }
property C14 { standin "what the proof takes as given: termination and convergence, gonum products; rounding"; }
property C15 { verify PerformLassoCrd, LassoCrdDescPath, NewLassoLarsNode, LassoCrdDesc, SoftThreshold, MulSlice, UpdateCovDotBeta, UnsatisfiedKKTConditions, PureLasso.Deriv, ElasticNet.Deriv; lemmas nonzerosFrame, nonzerosRange, nonzerosPush, nonzerosNone, nonzerosEmpty, entryIntro, entryRange, entryEmpty, cntAll, dotrMix, absDiffMix, absDiffBound; standin "what the proof takes as given: termination of each solve, workers that do not disturb each other (corrections without state), messages not changed after sending; rounding"; }
property C16 { standin "what the proof takes as given: termination, gonum products and singular value decomposition, back ends that are functions of matrix, active set and vector; rounding"; }
property C17 { standin "what the proof takes as given: termination, gonum products and norms, the singular value decomposition; rounding"; }
property C18 { standin "what the proof takes as given: termination, memory for the enumeration, no overflow, rounding, math.Pow"; }
property C19 { standin "what the proof takes as given: termination, no overflow, floating-point comparison"; }
property C20 { standin "what the proof takes as given: termination, no overflow, the target returns duplicate-free features of its matrix, rand.Shuffle; rounding"; }
property C21 { standin "gonum row copies and the random generator (rand.Shuffle), given by assumed contracts; rounding"; }
property C22 { standin "what the proof takes as given: termination, no overflow, rounding"; }
property C23 { standin "what the proof takes as given: termination, integers within 32 bits for the feature range"; }
property C24 { standin "what the proof takes as given: termination, the least-squares fit (C28), criteria below the largest float; rounding"; }
property C25 { standin "what the proof takes as given: termination, rounding"; }
property C26 { standin "the lock implementation (package sync)"; }
property C27 { standin "what the proof takes as given: termination, no overflow, rounding"; }
property C28 { verify Fit; lemmas normalEquations; standin "the singular value decomposition of gonum, given by an assumed contract; rounding"; }
