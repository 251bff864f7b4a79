import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,obs,state=None):
    d=dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=['featselect/'+f for f in files],mechanism=[dict(name=n,where='featselect/'+w) for n,w in mech],observe_at=obs,hook_needed=None))
    if state: d['anchors']['state']=[dict(name=n,meaning=m) for n,m in state]
    P.append(d)
p('C01','Highscore list is ordered, bounded and keeps the best models',
 'After any sequence of insertions of models with comparable scores into a highscore list of requested size K (at least 1), the list is ordered from best to worst, holds at most K models, all of them inserted ones, and no model it dropped scores better than a model it kept. It holds every inserted model while there are fewer than K, and never fewer than K-1 (at least one) afterwards. The reported best score is the highest score ever inserted, the reported scores are those of the held models in list order, and two lists are reported equal exactly when they agree in capacity, length and pairwise in their models.',
 ['histories','inputs'],'all insertion histories, all capacities >= 1, all score values incl. ties',
 'One test inserts four models with distinct scores into one list; ordering, ties, capacity edges and long histories are unbounded.',
 ['highscore.go','node.go'],[('ordered insertion with capacity','highscore.go:Highscore.Insert'),('best score','highscore.go:Highscore.BestScore'),('scores','highscore.go:Highscore.Scores'),('equality','highscore.go:Highscore.Equal')],
 ['held models and scores after each insertion'],[('list of models','held models in order'),('capacity','requested size')])
p('C02','Annealing score list keeps distinct, internally consistent best models',
 'After any sequence of insertions, the annealing score list holds at most its capacity (at least 1) of models with pairwise different selections; while there is room every new selection is added, and when full a new selection replaces the worst held model exactly when it scores strictly better. For every held model, and for the model reported as best, the selection, coefficients and score are those of one and the same inserted model. The best and worst models it reports carry the highest and lowest score in the list.',
 ['histories','inputs'],'all insertion histories, capacities >= 1, all selections, coefficient vectors and scores',
 'The tests insert a handful of items and compare scores only; they never look at the coefficients after a replacement.',
 ['saScore.go'],[('insertion and replacement','saScore.go:SAScore.Insert'),('duplicate detection','saScore.go:SAScore.Exists')],
 ['items, best and worst after each insertion'],[('items','held models'),('best/worst','extreme models')])
p('C03','Packed bit model behaves as a set of feature indices',
 'A new packed model of any size has every feature off. Setting a feature turns it on, flipping it inverts it, and neither changes any other feature; reading a feature returns exactly what the history of sets and flips implies. Converting to a boolean list gives one entry per feature, equal to what reading each feature returns.',
 ['histories','inputs'],'all sizes, indices and set/flip histories',
 'Tests touch a few indices of one small model; byte-boundary interactions across arbitrary sizes are not covered.',
 ['model.go'],[('bit addressing','model.go:Model.Get/Set/Flip'),('expansion','model.go:Model.ToBools')],['values read back'])
p('C04','Search tree expansion and exhaustive search cover each subset once',
 'Expanding a search node yields a child that is one level deeper, whose selection equals the parent\'s except that the feature at the parent\'s level is inverted exactly when requested, and leaves the parent unchanged. The exhaustive search returns every non-empty feature subset exactly once, ordered from best to worst, each with the coefficients and score that belong to that very subset.',
 ['inputs'],'all datasets and numbers of features, all nodes and levels',
 'Tests expand one fixed node and run exhaustive search on one or two data sets; that no subset is skipped or scored with the wrong columns is a statement over all of them.',
 ['node.go','optimize.go'],[('child creation','node.go:Node.GetChildNode'),('new-model test','optimize.go:isNewNode'),('exhaustive search','optimize.go:BruteForceSelect'),('node creation','node.go:NewNode')],['result list of the exhaustive search','child nodes'])
p('C05','Score bounds bracket every completion of a partial selection',
 'For a selection whose first s features are decided, the largest completion has exactly the decided features plus all undecided ones and the smallest exactly the decided ones; neither call changes its input. The AIC and AICc lower (upper) bound is at most (at least) the criterion of every completion, whenever residuals of nested least-squares fits are ordered, there are fewer selected features than data points minus one, and residuals stay above the documented minimum.',
 ['inputs'],'all selections, split positions and datasets',
 'Tests compare bounds with sub-models of a few fixed data sets; the claim quantifies over all completions of all partial selections.',
 ['criteria.go','optimize.go'],[('extreme completions','optimize.go:Gcs/Lcs'),('feature count','optimize.go:NumFeatures'),('bounds','criteria.go:bounds/BoundsAIC/BoundsAICC'),('criteria','criteria.go:Aic/Aicc/Bic')],['returned bounds and completions'])
p('C06','Pruning discards exactly the branches the documented rule allows',
 'Expanding a node discards a child exactly when it selects at least as many features as there are data points, or the highscore list is non-empty and the child\'s lower bound plus the cutoff exceeds the best cost found so far; a kept child carries valid bounds. Cleaning the queue removes exactly the nodes whose lower bound exceeds the threshold and keeps the rest in order; the memory fallback does so with the mean lower bound as threshold.',
 ['inputs','histories'],'all nodes, cutoffs, highscore states, queues and thresholds',
 'Tests clean one five-element queue and never exercise a non-zero cutoff; off-by-one or direction errors in pruning lose optima only on particular data.',
 ['optimize.go'],[('child pruning','optimize.go:CreateChild'),('queue cleaning','optimize.go:CleanQueue'),('memory fallback','optimize.go:RemoveLeastPromising'),('progress','util.go:NewLog2Pruned')],['returned child','queue content'])
p('C07','Branch-and-bound search finds the model exhaustive search finds',
 'With no cutoff and no queue limit, the branch-and-bound search ends with a highscore list whose best model is a best AICc model over all non-empty subsets with fewer features than data points, also when started from any given root selection with fewer features than data points, including when that root is itself optimal. Each listed non-empty model carries the coefficients and score of its own selection, and no selection is listed twice.',
 ['inputs','schedules'],'all datasets with more rows than columns, all root selections, all worker schedules',
 'Tests run a few fixed data sets from the empty root; losing the optimum needs particular roots, bounds or interleavings.',
 ['optimize.go'],[('search loop','optimize.go:SelectModel'),('scoring worker','optimize.go:ScoreWorker'),('expansion worker','optimize.go:CreateChildNodes')],['highscore list after the search'])
p('C08','All encodings of a feature selection agree',
 'Boolean, index-list, sparse and full-length encodings of a selection describe the same set: converting a boolean selection to indices lists exactly the selected features once in ascending order, converting indices to booleans marks exactly those, the feature count equals the number of marks, and expanding a sparse coefficient vector puts each coefficient at its feature and zero elsewhere. Conversions do not alter their inputs.',
 ['inputs'],'all selections, lengths and coefficient vectors',
 'Tests convert a few short selections; agreement between encodings is a statement over all of them.',
 ['optimize.go','util.go','orthogonalMatchingPursuit.go','saScore.go','node.go'],[('counting','optimize.go:NumFeatures'),('to booleans','util.go:Selected2Model'),('to indices','orthogonalMatchingPursuit.go:SelectedFeatures'),('sparse','node.go:Node.ToSparseCoeff'),('annealing item','saScore.go:NewSAItem'),('expansion','util.go:FullCoeffVector')],['converted selections'])
p('C09','Column selection picks exactly the chosen columns in order',
 'The design matrix of a non-empty selection has one row per data point and exactly the selected columns of the source in ascending feature order, and the source is unchanged; an empty selection is rejected by panicking. Indexed column and vector views and slice vectors show, at every position, exactly the addressed source entry, also through their transpose. Rearranging columns by an order list puts each listed column where the list says and the unlisted ones behind in original order.',
 ['inputs'],'all matrices, selections, index lists and column orders',
 'Tests check a few small fixed matrices.',
 ['util.go','subview.go','sliceVec.go'],[('design matrix','util.go:GetDesignMatrix'),('column view','subview.go:IndexedColView'),('vector view','subview.go:IndexedColVecView'),('slice vector','sliceVec.go:SliceVec'),('rearranging','util.go:RearrangeDense')],['entries of the returned matrices'])
p('C10','Feature names stay attached to their data columns',
 'The name of a feature is the header entry of its column with the target column left out, and looking that name up gives back the same feature when names are distinct; an unknown name is rejected by panicking. A subset has, for each chosen feature in order, the same column values and name, the same target values, and the target name last; a copy is equal in every part and shares no storage with the original. Mapping a selection by name sends each index to the feature of the original dataset with the same name, and two datasets compare equal only if shape, target column, names and values agree.',
 ['inputs'],'all datasets, target positions, subsets and selections',
 'Tests use a target in a single position and a fixed subset; shifting around the target column is a for-all statement.',
 ['csvIO.go','nestedLasso.go'],[('name of feature','csvIO.go:Dataset.GetFeatName'),('feature by name','csvIO.go:Dataset.FeatNoByName'),('subset','csvIO.go:Dataset.GetSubset'),('copy','csvIO.go:Dataset.Copy'),('mapping','nestedLasso.go:MapSelectionByName'),('equality','csvIO.go:Dataset.IsEqual')],['names and columns of derived datasets'])
p('C11','CSV reading and writing put every value in its cell',
 'Reading a CSV with a header and at least one data row gives the header as names, the chosen column (negative counts from the end) as target and the other columns in order as features, with unparsable cells read as zero. Writing a dataset produces the header followed by one line per data point with the target in its column, each number in six-decimal notation, so that reading it back restores names, shape, target position and all values to six decimals.',
 ['inputs'],'all tables, target positions and values',
 'Tests read and write one or two fixed small tables.',
 ['csvIO.go'],[('parser','csvIO.go:ParseCSV'),('writer','csvIO.go:Dataset.SaveHandle')],['parsed dataset','written text'])
p('C12','JSON round trips preserve models, highscore lists and datasets',
 'Encoding a finite search node and decoding it gives back the same selection, coefficients, level, bounds and score. Encoding a highscore list and decoding it, also into a zero-value or non-empty list, gives back the same capacity and exactly the same models in order, including when the list is full. Encoding a dataset and decoding it gives back the same matrix, targets, names and target column.',
 ['inputs'],'all nodes, highscore lists and datasets with finite values',
 'Tests round-trip one two-element highscore list far below capacity and one dataset.',
 ['node.go','highscore.go','csvIO.go'],[('node','node.go:Node.MarshalJSON/UnmarshalJSON'),('highscore','highscore.go:Highscore.MarshalJSON/UnmarshalJSON'),('dataset','csvIO.go:Dataset.MarshalJSON/UnmarshalJSON')],['decoded values'])
p('C13','Normalisation is exact and undoing it preserves predictions',
 'In ideal arithmetic, the mean and standard deviation of a list are the usual ones, normalising replaces every entry by its deviation from the column mean divided by the column standard deviation (a constant first column becomes zero and is flagged as bias; any other constant column is rejected by panicking), for columns and targets alike. Coefficients converted back from normalised data give, on every original row, exactly the back-scaled prediction of the normalised model, with the bias coefficient (an additive constant) first when there is a bias column and the selection extended accordingly.',
 ['inputs'],'all data and all coefficient vectors, ideal real arithmetic',
 'Tests check a couple of small data sets numerically.',
 ['util.go','normalized_dataset.go','lasso_lars.go'],[('moments','util.go:Mean/Std'),('normalising','util.go:NormalizeArray/NormalizeCols, normalized_dataset.go:NewNormalizedData'),('undoing','normalized_dataset.go:LinearNormalizationTransformation/LinearTransformationBias, lasso_lars.go:Path2Unnormalized')],['normalised data','converted coefficients'])
p('C14','Coordinate-descent lasso keeps exact books and stops at an optimum',
 'Soft thresholding, matrix-vector products and the incremental update of the covariance product follow their definitions in ideal arithmetic, and the check of optimality conditions returns exactly the features with zero coefficient whose gradient exceeds the regularisation. A solve never changes the caller\'s starting vector or data, leaves the first (bias) coefficient zero, and when it stops because it converged, every other coefficient satisfies the lasso optimality conditions for the given regularisation within tolerance.',
 ['inputs'],'all data, regularisation strengths, starting vectors and corrections',
 'Tests solve a few problems and compare with fixed numbers; wrong re-activation of features shows up only on particular data.',
 ['lassoCrdDesc.go','lassoCorrections.go'],[('solver','lassoCrdDesc.go:LassoCrdDesc'),('soft threshold','lassoCrdDesc.go:SoftThreshold'),('optimality check','lassoCrdDesc.go:UnsatisfiedKKTConditions'),('bookkeeping','lassoCrdDesc.go:MulSlice/UpdateCovDotBeta'),('corrections','lassoCorrections.go:Deriv/Update')],['returned coefficients','caller\'s starting vector'])
p('C15','Coordinate-descent path returns each solution at its own regularisation',
 'For any list of regularisation values, the coordinate-descent path returns one entry per value in reverse list order, with only leading entries that selected nothing dropped; each entry carries the regularisation value it was solved for, and its selection and coefficients are exactly the non-zero entries of a solution of that problem. Every entry satisfies the lasso optimality conditions at its own value when the solver converged, whatever the order in which workers finish.',
 ['inputs','schedules'],'all data, all lists of regularisation values, all worker schedules',
 'Tests run one path; misplacement of results depends on worker timing and list length.',
 ['lassoCrdDesc.go'],[('path','lassoCrdDesc.go:LassoCrdDescPath'),('worker','lassoCrdDesc.go:PerformLassoCrd')],['returned path'])
p('C16','LARS lasso path is well formed along its whole length',
 'Every node of the exact lasso path lists its active features in strictly ascending order with one coefficient each, all within range; regularisation values never increase along the path and stay above the requested minimum; consecutive entries differ by one feature and the next value is the larger of the joining and the crossing event. The next joining (crossing) event chosen is the largest over inactive (active) features, and coefficients at a regularisation value follow the straight-line formula between events.',
 ['inputs'],'all data sets, minimum regularisations and linear-algebra back ends',
 'Tests compare two small paths with reference numbers.',
 ['lasso_lars.go','lasso_cd.go'],[('path','lasso_lars.go:LassoLars'),('events','lasso_lars.go:maxJoinTime/maxCrossTime/tJoin/tCross'),('coefficients','lasso_lars.go:betaLARS'),('node','lasso_lars.go:NewLassoLarsNode')],['nodes of the path'])
p('C17','Orthogonal matching pursuit reports a consistent greedy selection',
 'Matching pursuit reports an inclusion order of distinct, valid features, at least one, and at most one entry per feature; the next feature taken is one with the largest absolute normalised projection. Coefficients are zero for every feature not in the order, unless the pursuit re-picked an already included feature.',
 ['inputs'],'all data sets and tolerances',
 'Tests run a few data sets where the greedy choice is obvious.',
 ['orthogonalMatchingPursuit.go'],[('pursuit','orthogonalMatchingPursuit.go:Omp'),('arg max','orthogonalMatchingPursuit.go:Argmax'),('initial result','orthogonalMatchingPursuit.go:NewOmpResult')],['order and coefficients'])
p('C18','Polynomial feature expansion enumerates each monomial exactly once',
 'The product enumeration lists every length-r tuple over the given values exactly once in lexicographic position order, each row independent of the others. Expanding a matrix to a maximum power yields the original columns followed by one column per monomial of total degree between two and the maximum over the (distinct) chosen columns, each monomial once, and every entry is the product of the row\'s values raised to the monomial\'s powers.',
 ['inputs'],'all value lists, repeat counts, matrices and maximum powers',
 'Tests use up to three repeats and two or three columns; row aliasing only appears from length four.',
 ['util.go','lazyPowerMat.go'],[('product','util.go:IterProduct'),('expansion','lazyPowerMat.go:LazyPowerMatrix'),('degree','util.go:Sum')],['rows of the product','columns of the expanded matrix'])
p('C19','Ordering and set helpers return what their names say',
 'Argument sorting returns each index exactly once with values ascending; arg-min and arg-max return the first index of a smallest/largest entry; minimum and maximum of a non-empty list (of 32-bit integers) are attained and bound every entry. Membership, equality, all-equal and sum follow their definitions, a union keeps the first list in front and adds each missing value of the second once, and only the absolute-value helper changes its argument\'s entries.',
 ['inputs'],'all lists',
 'Tests check short fixed lists.',
 ['util.go','orthogonalMatchingPursuit.go'],[('sorting','util.go:Argsort'),('extremes','util.go:Argmin/MaxInt/MinInt/MinFloat, orthogonalMatchingPursuit.go:Argmax'),('sets','util.go:ExistInt/EqualInt/UnionInt/All/Sum')],['returned values'])
p('C20',"Cohen's kappa follows its definition for all pairs of selections",
 "For two duplicate-free selections out of n features, the kappa value equals (observed agreement - chance agreement)/(1 - chance agreement) computed from the exact numbers of features in both, one and neither, in ideal arithmetic; it is 1 for identical selections (also when both are empty or complete), symmetric in its arguments and at most 1. The stability estimate is the mean over the (one or more) samples of the kappa of the selections from two disjoint halves that together contain each data point once.",
 ['inputs'],'all pairs of selections and feature counts; all samplings',
 'Tests check a handful of pairs, none with every feature selected.',
 ['util.go','cohens_kappa.go'],[('kappa','util.go:CohenKappa'),('mean over samples','cohens_kappa.go:GetCohensKappa')],['returned kappa'])
p('C21','Thresholding, covariance and row splitting act on exactly the right entries',
 'Thresholding sets exactly the entries smaller in magnitude than the threshold to zero, leaves the rest and counts what it removed. A random row split of any size distributes every row of the source, intact, to exactly one of the two parts with the requested sizes. The covariance matrix has entries mean(x_i x_j) - mean(x_i) mean(x_j), the identity variant is the identity, and the empirical variant mean(x_i x_j), in ideal arithmetic; none changes its source.',
 ['inputs','schedules'],'all matrices, thresholds and random permutations',
 'Tests threshold one matrix and split one matrix once.',
 ['thresholdCov.go','covarianceMatrix.go'],[('threshold','thresholdCov.go:ThresholdOperator.Apply'),('split','thresholdCov.go:RandomRowSplit'),('covariance','thresholdCov.go:CovarianceMatrix, covarianceMatrix.go:Empirical.Get/Identity.Get')],['resulting matrices'])
p('C22','Criteria along a path use the right model, data and formula',
 'AIC, AICc (with its small-sample fallback) and BIC equal their defining formulas in ideal arithmetic. The criterion reported for each path entry is the criterion applied to the number of selected features, the number of data points and the residual sum of squares of that entry\'s own selection and coefficients on the path\'s dataset, in path order, without changing the path or the data.',
 ['inputs'],'all paths, datasets and criteria',
 'Tests compare a few numbers; pairing errors need paths with several distinct entries.',
 ['criteria.go','lassoPlot.go'],[('formulas','criteria.go:Aic/Aicc/Bic'),('along path','lassoPlot.go:LassoLarsPath.GetCriteria')],['returned criteria'])
p('C23','Views of a lasso path report its features and coefficients faithfully',
 'Picking the most relevant features returns, without duplicates and in order of first appearance, all features of the shortest path prefix that shows at least the requested number (or of the whole path). Extracting a feature\'s path gives per entry the logarithm of its regularisation and the feature\'s coefficient there, or zero when it is not selected. The reported feature range is attained and encloses every selected feature, and the sparse form pairs each entry\'s own selection and coefficients.',
 ['inputs'],'all paths and feature numbers',
 'Tests use one hand-made path.',
 ['lassoPlot.go','lasso_lars.go'],[('relevance','lassoPlot.go:PickMostRelevantFeatures'),('coefficient path','lassoPlot.go:ExtractPath'),('range','lassoPlot.go:MaxMinFeatNo'),('sparse form','lasso_lars.go:LassoNodesSlice2SparsCoeff')],['returned lists'])
p('C24','Simulated annealing returns a selection with its own coefficients',
 'On at least three data points, whenever the annealing search returns, its selection is non-empty, strictly ascending and in range, with one coefficient per feature, and these are the least-squares coefficients of that very selection; it has fewer features than half the data points. Every model in its score list likewise carries the coefficients and the (negated) criterion of its own selection, and the list\'s best model is at least as good as the returned one.',
 ['inputs','schedules'],'all data sets, criteria and all random choices',
 'Tests run a few seeds on easy data and look at the selection only.',
 ['simmulatedAnnealing.go','saScore.go'],[('search','simmulatedAnnealing.go:SelectModelSA'),('items','saScore.go:NewSAItem')],['result and score list'])
p('C25','Model averaging weights and averages are exact',
 'In ideal arithmetic the weights derived from criterion values are positive, sum to one, are larger for smaller criteria, depend only on differences between the criteria, and leave the criteria unchanged. The weighted average coefficient of each feature is the sum over models selecting it of weight times coefficient (zero if none selects it); mismatched numbers of weights and models are rejected by panicking.',
 ['inputs'],'all criterion lists, weights and sparse models',
 'Tests check one small example and never look at the input afterwards.',
 ['util.go'],[('weights','util.go:WeightsFromAIC'),('average','util.go:WeightedAveragedCoeff')],['weights, averages, caller\'s criteria'])
p('C26','Search progress is read as one consistent snapshot',
 'Reading the search progress returns the best score, number explored and pruned count of one single update (or the initial state), never a mix, because every access happens while holding the lock that excludes a concurrent update, and the lock is released on every return.',
 ['schedules','histories'],'all interleavings of updates and reads',
 'A unit test cannot enumerate interleavings; lock discipline is a statement about every access path.',
 ['searchProgress.go'],[('locked update','searchProgress.go:SearchProgress.Set'),('locked read','searchProgress.go:SearchProgress.Get')],['returned triples'],[('three values','progress numbers'),('lock','reader/writer lock')])
p('C27','Predictions and residuals follow their definitions',
 'In ideal arithmetic, a prediction is for every row the sum over features of value times coefficient, the residual sum of squares is the sum of squared differences between prediction and target, and the generalised cross-validation score is the root of the mean over data of squared residuals divided by one minus the leverage. Inputs are not changed; residuals and predictions for a whole matrix reject mismatched lengths by panicking.',
 ['inputs'],'all matrices, coefficients and targets',
 'Tests check one or two numeric examples.',
 ['fit.go'],[('prediction','fit.go:PredictOne/Predict'),('residuals','fit.go:Rss'),('cross validation','fit.go:Gcv')],['returned numbers'])
p('C28','Least-squares fit solves the normal equations',
 'For every design matrix of full column rank with more rows than columns, the fitted coefficients make the residual orthogonal to every column (the normal equations hold up to rounding), and a mismatch between rows and targets is rejected by panicking.',
 ['inputs'],'all well-conditioned design matrices and targets',
 'Tests fit a few exact data sets.',
 ['fit.go'],[('fit','fit.go:Fit')],['coefficients'])
p('C29','Concurrent searches are free of data races and deadlocks',
 'For every schedule of their workers, the parallel searches and path computations terminate without deadlock, without unsynchronised conflicting accesses, and without leaving workers blocked forever.',
 ['schedules'],'all schedules of workers',
 'Tests see a few schedules only.',
 ['optimize.go','lassoCrdDesc.go','cohens_kappa.go','thresholdCov.go'],[('channels','optimize.go:SelectModel')],['termination'])
p('C30','Results are accurate in floating point',
 'Coefficients, scores and bounds computed in floating point differ from their exact values by no more than a bound proportional to machine precision and the conditioning of the data.',
 ['inputs'],'all finite inputs',
 'Tests compare with fixed tolerances on a few data sets.',
 ['fit.go','lasso_lars.go'],[('singular value fit','fit.go:Fit')],['numerical results'])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for d in P:
    jsonschema.validate(d,s); assert len(d['title'])<=80,d['id']
print(len(P))
