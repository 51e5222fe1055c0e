FLOW = "path-sensitive dataflow / value numbering on SSA"
NOTE = ("Decided for all inputs from the SSA form of the current source, with repository callees analysed inline; sound up to the "
        "stated assumptions (exact arithmetic, distinct access paths name distinct arrays). ")

prop("C07", "Training and prediction route every case alike",
 "At a split a case goes left exactly when its value is at most the threshold (numeric) or its category is in the split's left set (categorical), and a missing value is recognised before either test. "
 "The coded split used while growing, the decoded splitter stored in the tree and the splitter applied to new data agree on every case, and a grown node records the feature and split its cases were actually divided by. "
 "Walking a tree sends each part of a node's cases to the matching child.",
 ["inputs"], "every feature value, category code, threshold, left set and pattern of missing values, at every node",
 "Tests compare a handful of splits; the agreement must hold for every value, including values equal to the threshold, categories above 31 and missing values in any position.",
 ["densenumfeature.go", "densecatfeature.go", "splitter.go", "node.go", "tree.go"],
 [("test of a decoded split", "GoesLeft of the numeric and categorical feature"), ("coded splits", "Split, SplitPoints and DecodeSplit of both features"), ("walks", "Node.Recurse, Node.CodedRecurse"), ("growers", "Tree.Grow, Tree.GrowJungle")],
 FLOW, NOTE + "Numeric routing is compared up to NaN, which the missing-value property excludes from present values.")

prop("C08", "A split divides its cases without losing or duplicating any",
 "Dividing the cases of a node rearranges them in place into a left, a missing and a right part that are contiguous, disjoint and together contain exactly the cases given. "
 "Each part is handed to its own child and to no other, one level deeper; cases in the missing part are handed on whenever the node has a missing branch. "
 "A missing branch exists in a grown tree only where training cases reached it.",
 ["inputs"], "every sequence of cases (with repeats), every pattern of left, right and missing cases, every tree shape",
 "Tests split a few short case lists; the in-place partition must be right for every interleaving of left, right and missing cases.",
 ["densenumfeature.go", "densecatfeature.go", "splitter.go", "node.go", "tree.go"],
 [("in-place partition", "Split and SplitPoints of both features, Splitter.Split"), ("descent", "Node.Recurse, Node.CodedRecurse, Tree.GrowJungle")],
 FLOW + " with an inductive invariant checked on every loop path", NOTE)

prop("C01", "A feature's missing-value flag is never stale",
 "A feature reports that it contains missing values exactly when some case of it is missing. "
 "Appending or storing a missing value, copying a feature (Copy, CopyInTo, ShuffledCopy), reading a feature from any input format and imputing its missing values all leave the flag in agreement with the cases, "
 "because splitting a node skips its missing-value handling when the flag is unset.",
 ["inputs", "histories"], "every sequence of appends, stores, copies and imputations on every kind of feature, and every input file",
 "Tests look at a few features; the flag must agree after every sequence of operations that stores or copies a missing marker.",
 ["densenumfeature.go", "densecatfeature.go", "featureinterfaces.go", "featurematrix.go", "arff.go", "libsvm.go"],
 [("writers of the missing marker", "Append, Put, PutStr, PutMissing, Copy, CopyInTo, parsers, ImputeMissing"), ("writers of the flag", "every store to HasMissing")],
 FLOW, NOTE + "Every function of the repository that can write a missing marker or the flag is found by effect analysis and judged.")

prop("C02", "Missing markers and values are stored exactly as read",
 "An empty field, '?' and the words nan, na and null in any letter case are stored as missing by every way of reading or setting a value from text; any other text of a categorical feature is stored as a present category, and text of a numeric feature is missing exactly when it does not parse as a number or parses as NaN. "
 "A present value reads back unchanged, a missing one reads back as NA, and the typed accessors of a feature read and write exactly the case they are given.",
 ["inputs"], "every text, every letter case, every feature kind and case index",
 "Tests use one or two marker spellings; the rule must hold for every spelling and for every ordinary value.",
 ["densenumfeature.go", "densecatfeature.go", "featureinterfaces.go", "featurematrix.go"],
 [("text in", "Append and PutStr of both features, ParseFeature"), ("text out", "GetStr of both features"), ("typed accessors", "Get, Put, Geti, Puti, IsMissing, PutMissing")],
 FLOW, NOTE + "Each marker spelling is bound as a constant and the symbolic remainder is judged for every other text.")

prop("C04", "Category codes and labels stay mutually inverse",
 "Within a categorical feature, the map from label to code and the list from code to label are inverses of each other: a new label gets the next unused code, once, and is added to both; a label already known keeps its code. "
 "The code stored for a case decodes to the label that was given for it, and no operation removes, reorders or shares the tables in a way that changes the meaning of codes already stored.",
 ["inputs", "histories"], "every sequence of labels and operations on categorical features",
 "Tests use two or three labels; the tables must stay inverse over every history of labels.",
 ["catmap.go", "densecatfeature.go", "featurematrix.go"],
 [("the tables", "CatMap.CatToNum, NumToCat, CatMap.Map and Back"), ("users of codes", "DenseCatFeature.Append, PutStr, GetStr, Copy")],
 FLOW, NOTE)

prop("C15", "Every case votes once, with its leaf's prediction and the tree's weight",
 "When a tree votes on a matrix, or on a list of cases, every case given reaches exactly one terminal node (following its missing branch where there is one) and casts exactly one vote: the prediction stored in that node, weighted by the tree's weight, or by one when no weight is set. "
 "Listing the leaves or the partition of a tree yields each terminal node exactly once with exactly the cases that reach it.",
 ["inputs"], "every tree shape, every matrix and every case list, including nodes without children, missing branches and repeated cases",
 "Tests vote with single small trees; the count must be exact for every tree and every case.",
 ["tree.go", "node.go", "voter.go"],
 [("votes", "Tree.VoteCases, Tree.Vote, Node.Vote walks"), ("listings", "Tree.GetLeaves, Tree.Partition")],
 FLOW, NOTE)

prop("C03", "Copies and encodings carry the same data and share nothing",
 "A copy of a feature (Copy, CopyInTo, ShuffledCopy before shuffling) has the same values, missing markers, labels and codes as the original for every case, and its value, missing and label storage is its own: changing either one afterwards never changes the other. "
 "The numeric and one-hot encodings of a categorical feature have one feature per category holding one exactly for the cases of that category and zero otherwise (with at most two categories, a single feature holding each case's code), and the missing markers of the original, in storage of their own.",
 ["inputs", "histories"], "every feature of any length, number of categories and pattern of missing values, and every later change to either side",
 "Tests copy a short feature once; sharing shows only when a copy is changed later, and a partly filled copy only for particular lengths or label counts.",
 ["densenumfeature.go", "densecatfeature.go"],
 [("copies", "Copy, CopyInTo, ShuffledCopy of both features"), ("encodings", "DenseCatFeature.EncodeToNum, OneHot")],
 FLOW, NOTE)

prop("C05", "A feature is found under its own name",
 "In every feature matrix the repository builds or changes (every parser, AddContrasts, ContrastAll, EncodeToNum, OneHot, StripStrings, the writers' scratch matrices and the commands) the name index gives, for each feature's name, the position of that feature in the matrix, and has an entry for every feature placed. "
 "Features are only moved, renamed or replaced together with their index entries.",
 ["inputs", "histories"], "every input file and every sequence of operations on matrices with distinct feature names",
 "Tests look up a feature or two in one file; the index must agree after every operation and for every layout of the file.",
 ["featurematrix.go", "arff.go", "libsvm.go", "utils/toafm/main.go", "utils/nfold/main.go"],
 [("parsers", "ParseAFM, ParseARFF, ParseLibSVM"), ("changes", "AddContrasts, ContrastAll, EncodeToNum, OneHot, StripStrings, WriteLibSvm")],
 FLOW, NOTE + "The toafm command renames features of a matrix it only prints; that is outside the statement's look-ups. Duplicate names keep the last position.")

prop("C06", "Reordering loses nothing and keeps companions together",
 "Sorting cases by value, shuffling a feature or a selection of its cases, drawing candidate features or samples in place, and the in-place grouping of cases in the categorical split search only exchange elements: afterwards each array holds exactly the elements it held before. "
 "Arrays that belong together move together: case indexes and their values in a sort, values and missing markers in a shuffle. "
 "The sorter is loaded with the value of every case given, sorts the cases by those values, and a shuffle of selected cases moves no other case.",
 ["inputs"], "every array length and content, every draw of the random source, and every coincidence of the positions exchanged",
 "Tests sort and shuffle a few short arrays; a lost or doubled element needs a particular tie, length or draw.",
 ["sortby/sortby.go", "sortablefeature.go", "densenumfeature.go", "densecatfeature.go", "sampeling.go", "featurematrix.go"],
 [("sort", "every function of package sortby, SortableFeature.Load, Sort, Swap"), ("shuffles", "Shuffle and ShuffleCases of both features"), ("draws", "SampleFirstN, FeatureMatrix.BestSplitter"), ("search", "BestCatSplit, BestBinSplit")],
 FLOW + " with every coincidence of element positions distinguished", NOTE + "That the sort's result is in increasing order is not claimed here.")

LOCK = "lockset / typestate analysis over all paths, with whole-program write summaries"
prop("C16", "A saved forest is read back as it was",
 "Writing a forest with WriteForest (or a tree with WriteTree) in the .sf format and reading it with ReadForest (or ReadTree) gives back the same target, the same intercept, the same trees in the same order, each with its weight (exactly, when it is not negative; -1 when it is), and below each tree the same nodes at the same places: every left, right and missing branch of a node that has a splitter, with the same prediction, and with the same splitter: its feature, its kind, exactly its value when it is numerical and exactly its set of left categories when it is categorical. "
 "AddNode puts a node at the end of the path of L, R and M it is given and changes no other node.",
 ["inputs"], "every forest: any number of trees, any shape, any weight, value or category",
 "The test saves one forest and looks at a few nodes; a clause left out or rounded shows only for the values concerned.",
 ["forestwriter.go", "forestreader.go", "tree.go"], [("writer", "WriteForestHeader, WriteForest, WriteTree, WriteTreeHeader, WriteNodeAndChildren, WriteNode, DescribeMap"), ("reader", "ReadForest, ReadTree, Tree.AddNode")],
 "evaluation of the written text into clauses, and dataflow of the clauses read, over all paths on SSA", NOTE + "The property is about names, labels and predictions the format can hold: not part of it are quotes, commas, colons, = and line breaks inside them, empty left sets, and the forest number. Splitting a line into key=value clauses (ParseRfAcePredictorLine) is string processing and stated separately as C17; here it is taken to give back the clauses that were written.")
na("C17", "A line of a forest file is split into the clauses that were written",
 "For every line written by ForestWriter, ParseRfAcePredictorLine returns exactly the keys and values of its clauses, without the quotes, when the values hold no quotes and no line breaks; a comma inside quotes, and an = inside a value, belong to the value.",
 ["inputs"], "every name, label and prediction",
 "Names with commas, quotes and = are rare in tests.",
 ["forestreader.go"], [("parsing", "ForestReader.ParseRfAcePredictorLine")],
 "Whether splitting at commas, joining while quotes are open and trimming gives back the written clauses is a statement about the contents of strings of any length: it needs an induction over the parser's loop with string lemmas (a solver or a proof), and no dataflow abstraction in reach separates a right splitting from a wrong one. Not turned into a runtime test.")
prop("C18", "Malformed or unreadable input is reported",
 "ForestReader.ReadTree and ReadForest return an error other than io.EOF when the reader they are given fails with one, and when a WEIGHT, an INTERCEPT or the LVALUES of a numerical splitter cannot be parsed as a number; no value is made up for it. ParseAFM, ParseARFF and ParseLibSVM return nil, and LoadCases an error, when the reader fails before its end, when a record has another number of fields than the first, or when a libsvm feature index is no number. LoadAFM returns an error when the file cannot be opened and whenever parsing it gives nil. "
 "DenseNumFeature.Append and PutStr make a value that cannot be parsed as a number missing. growforest, applyforest, leafcount, nfold and toafm end with a failure (log.Fatal) when a data file, a forest, a blacklist or a JSON option cannot be opened, read or parsed.",
 ["fault_sequences", "inputs"], "every malformed value and every point at which reading fails",
 "Tests read well-formed files; a reader that goes on after a failure gives a smaller matrix or another forest, and nothing looks wrong.",
 ["featurematrix.go", "libsvm.go", "arff.go", "forestreader.go", "densenumfeature.go", "growforest/growforest.go", "applyforest/applyforest.go", "leafcount/leafcount.go", "utils/nfold/main.go", "utils/toafm/main.go"], [("readers", "the functions that take an io.Reader or a file name"), ("commands", "the mains")],
 "error-flow analysis over all paths on SSA", NOTE + "Not part of the property: unknown SPLITTERTYPE values, clauses of a forest line without =, a libsvm entry without a colon, headers that are too short (the parsers panic), and the functions whose result has no room for an error (ParseFloat, ParseAsIntOrFractionOfTotal, the ballot boxes' Vote, which skip what is no number). Trying to open every file as a zip archive first is how LoadAFM finds archives.")
prop("C19", "The last line counts without a newline",
 "ForestReader.ReadTree and ParseLibSVM treat a last line that does not end in a newline exactly as one that does: the line is parsed, whatever it holds, and no tree node, header or case is lost. ParseARFF gives nil for a header that ends in the middle of a line.",
 ["inputs"], "every input whose last line lacks the newline",
 "Text files commonly lack the last newline; tests use complete files, and only the last node or case goes missing.",
 ["forestreader.go", "libsvm.go", "arff.go"], [("lines", "the ReadString calls")],
 "dataflow of the line read over all paths on SSA", NOTE + "The csv parts (AFM files, ARFF data, blacklists) rely on encoding/csv, which needs no last newline.")
prop("C20", "Shared counts are thread safe and lose no update",
 "Running means, the sparse counter and the three ballot boxes may be used by any number of goroutines at once: every method that reads or changes their counts holds the lock of the very object it touches for every such access, and a change is computed from values read in the same critical section. "
 "So no data race occurs and no added value or vote is lost, whatever the interleaving.",
 ["schedules"], "every interleaving of any number of callers of the exported methods",
 "A race needs a particular interleaving; the tests use one goroutine.",
 ["utils.go", "sumballotbox.go", "catballotbox.go", "numballotbox.go"],
 [("accumulators", "RunningMean, SparseCounter, SumBallotBox, CatBallotBox, NumBallotBox: every exported method")],
 LOCK, "Locks are told apart by access path; the rule is the Eraser discipline plus atomicity of read-modify-write sections. Constructors and the exported fields themselves, used without a method, are outside.")

prop("C21", "Locks are released, workers finish and results are read after them",
 "Every lock taken is released on every path out of its critical section, is never taken again while held, and locks are never nested in two different orders, so no call blocks for ever. "
 "Every worker of growforest signals its end exactly once on whatever way it leaves, main waits for exactly the workers started; leafcount's workers answer each forest file exactly once, after their last change to shared data, or end the program, and main reads the results only after all answers.",
 ["schedules", "inputs"], "every path, including errors, early ends of boosting and any number of cores, trees and files",
 "A missed release or signal shows only on a rare path or with a particular number of cores, as a hang.",
 ["utils.go", "sumballotbox.go", "catballotbox.go", "growforest/growforest.go", "leafcount/leafcount.go"],
 [("locks", "every function that locks"), ("workers", "growforest's grow closure and WaitGroup, leafcount's channels")],
 LOCK, "Termination of the work itself is not claimed.")

prop("C22", "Parallel workers share nothing they write without a lock",
 "Trees grown or counted by several workers at once (growforest -nCores, leafcount -threads) change memory that another worker may use only while holding one common lock, or through the methods of the thread-safe counts; variables of the surrounding function that workers change are also read by them under that lock. "
 "All other state a worker changes (its tree, case lists, candidate lists, split buffers, depth record) is its own. The target's own update inside a boosting step is taken under its lock; reading the target meanwhile with the experimental -multiboost option is excluded.",
 ["schedules"], "every interleaving of any number of workers, every combination of options except -multiboost",
 "Races need several cores, particular options and a particular interleaving.",
 ["growforest/growforest.go", "leafcount/leafcount.go", "tree.go", "featurematrix.go", "densenumfeature.go", "densecatfeature.go"],
 [("workers", "the closures started by growforest and leafcount and everything they call")],
 LOCK, "Memory is abstracted by allocation site and access path; library calls by a table of their effects.")

prop("C14", "Growing, applying and writing never alter the training data",
 "Searching and scoring splits, growing trees, walking, voting, partitioning, counting leaves, sampling cases, measuring errors, encoding, and writing forests or data in any format never change a feature, target, feature matrix, label table, splitter or package variable they are given. "
 "All they change is their output (the tree grown, the ballot box, counters, importance and depth records, the stream written), scratch space made for the search, and the order of case and candidate lists; scoring and predicting do not even reorder case lists. "
 "The scratch space never refers to the data itself: the contrast target used for vetting is a copy. A boosting step changes only its target's own weights (with gradient boosting: also its residuals).",
 ["inputs", "histories"], "every feature, target, matrix, forest and option of these operations, on every path of the code they reach",
 "A test compares results, not the data afterwards; a stray write through a shared slice shows only under particular sizes, options or later operations.",
 ["featurematrix.go", "densenumfeature.go", "densecatfeature.go", "splitallocations.go", "tree.go", "node.go", "libsvm.go", "arff.go", "forestwriter.go"],
 [("reading operations", "all methods of features and targets but the setters, shuffles and imputation"), ("growers and walkers", "Tree.Grow, GrowJungle, Vote, VoteCases, Partition, GetLeaves, FeatureMatrix.BestSplitter"), ("writers", "ForestWriter, WriteCases, WriteLibSvm, WriteLibSvmCases, WriteArffCases")],
 "interprocedural mod-ref (write effect) analysis", "Memory is abstracted by access path from the parameters, field and allocation-site sensitive; library calls by a table of their effects. Setters (Append, Put, PutStr, Puti, PutMissing, ImputeMissing, Shuffle, ShuffleCases, CatToNum, SetCosts) and constructors that register a class or make residuals are outside.")

prop("C24", "The target and excluded features are never used as predictors",
 "growforest offers the code that grows trees exactly these features as candidate predictors: every feature that is not the target, is not listed in the -blacklist file, does not match -blockRE and, with -includeRE, matches it. With -ace the shuffled contrasts of such features are candidates too, and those of excluded features and of the target are not. "
 "A feature once excluded is never let in again by another option. "
 "Tree.Grow, Tree.GrowJungle, GrowRandomForest and FeatureMatrix.BestSplitter look for splitters only among the candidates they are given, return one with the split found on it, and only reorder the candidate list.",
 ["inputs", "configurations"], "every data file, every combination of growforest's options and every draw of the random source",
 "Tests of growforest's option handling do not exist; a leak of the target or of a banned feature into the model shows only with a particular combination of options and looks like good accuracy.",
 ["growforest/growforest.go", "featurematrix.go", "tree.go", "forrest.go"],
 [("candidates", "the candidate list and exclusion list of growforest's main"), ("search", "FeatureMatrix.BestSplitter, ContrastAll"), ("growers", "Tree.Grow, Tree.GrowJungle, GrowRandomForest")],
 "provenance of list elements by path-sensitive dataflow over loops, with reachability over the control-flow cuts", NOTE)

prop("C25", "Cases without a target value are never trained on",
 "growforest and GrowRandomForest train every tree only on cases whose target value is present: whatever the sampling (bagging, -nSamples, -nobag, -balance, -balanceby), no case whose target is missing is in the list of training cases given to Tree.Grow or Tree.GrowJungle. "
 "The balanced samplers put a case into a class only when its target is present, and draw nothing but the cases of their classes. With -nobag every case with a target value is considered exactly once for each tree. "
 "The gradient boosting targets neither count cases without a target value in their starting prediction nor give them a residual.",
 ["inputs", "configurations"], "every pattern of missing target values, every combination of sampling options and every draw",
 "The tests' targets have no missing values; stored placeholders look like values, so a leak only shifts predictions.",
 ["growforest/growforest.go", "forrest.go", "sampeling.go", "gradboosttarget.go", "gradboostclasstarget.go"],
 [("training cases", "the case lists of growforest's main and GrowRandomForest"), ("samplers", "BalancedSampler, SecondaryBalancedSampler"), ("residuals", "NewGradBoostTarget, NewGradBoostClassTarget and their Update methods")],
 "provenance of list elements by path-sensitive dataflow over loops", NOTE + "Out-of-bag lists may hold cases without a target value; they are not trained on.")

prop("C29", "Samplers draw as many cases as asked for, from the classes they promise",
 "BalancedSampler.Sample and SecondaryBalancedSampler.Sample replace what is in the list by exactly n draws, each independent and with replacement: first a class, evenly among the classes that have cases, then a case, evenly among the cases of that class; a class without cases is never drawn. "
 "The secondary sampler first draws a category of the balancing feature, in proportion to its number of cases, and then a class within it. A class holds every case of its category that is not missing (in both features, for the secondary sampler) exactly once, and the shares count exactly these cases. "
 "SampleWithReplacment returns exactly nSamples numbers drawn evenly below totalCases. growforest, when it bags, trains each tree on exactly -nSamples drawn cases (all cases with a target value when the option is not positive), none of them left from another tree.",
 ["inputs", "configurations"], "every feature, number of draws and combination of sampling options",
 "Draws are random; a test cannot tell a skewed or short sample, and an empty class fails only when it happens to be drawn.",
 ["sampeling.go", "growforest/growforest.go"], [("samplers", "NewBalancedSampler, NewSecondaryBalancedSampler and their Sample methods"), ("draws", "SampleWithReplacment, the sampling loop of growforest's main")],
 "provenance of list elements and loop counting by path-sensitive dataflow on SSA", NOTE + "rand.Intn is taken to draw evenly. Not part of the property: a sampler for a feature without any known case, and -balanceby with a feature that does not exist.")
prop("C30", "Out-of-bag votes come only from trees not trained on the case",
 "With -oob, growforest lets a tree vote only on cases that are not among the training cases that very tree was grown on, and lets it vote exactly once on every case it was not trained on, after it has been grown. "
 "With -evaloob the cases handed to Tree.Grow or Tree.GrowJungle as out-of-bag cases are likewise exactly the cases that are not among the training cases given in the same call. Tree.VoteCases casts votes for exactly the cases it is given.",
 ["inputs", "configurations"], "every sample drawn, every combination of sampling options and every number of trees, forests and cores",
 "Which cases are out of bag is random and internal to the command, whose main no test calls; a leak only makes the reported error look better.",
 ["growforest/growforest.go", "tree.go"], [("growing loop", "the loop of growforest's main that samples, marks, collects, grows and votes"), ("votes", "Tree.VoteCases")],
 "provenance of list elements and phase analysis of all runs of the growing loop on SSA", NOTE + "Out-of-bag cases may include cases without a target value, whose votes are ignored when the error is tallied.")

prop("C31", "nfold's training and testing matrices share no case",
 "For every fold 0..folds-1 nfold writes one testing and one training matrix in each of the formats asked for and in no other (-writearff, -writelibsvm, -writeall; feature matrices when neither of the first two or -writeall is given), each to its own file, named by -test and -train with the number of the fold. The testing matrix holds the cases of the fold, the training matrix the cases of all other folds, each once, and nothing else. "
 "The folds are separate stretches of equal size: fold j gets the cases j*s to (j+1)*s-1, s a folds-th of their number rounded down, of all cases in random order, or, with a categorical target and without -unstratified, of the cases of each class of the target in random order; so no case is in two folds or twice in one. "
 "The data written is the same in every format: the features of the matrix loaded by -fm except exactly those on the blacklist (the target is never taken off by it, and the whole blacklist is read) and those with more than -maxcats categories, with missing values imputed first if and only if -impute is given, then one hot encoded if and only if -onehot is, then encoded as numbers if and only if -num is.",
 ["inputs", "configurations"], "every matrix, number of folds and combination of flags",
 "Nothing tests nfold; a case that is both trained and tested on only makes a model look better than it is.",
 ["utils/nfold/main.go"], [("folds", "utils/nfold main"), ("writing", "utils/nfold main, openfiles")],
 "provenance of every list of cases over the loops that fill it, with counting arguments for the stretches, and guard analysis of the flags, on SSA of the whole command", NOTE + "What the writers make of the cases they are given is C28 and the matrix format; that SampleFirstN only reorders its list is C06.")


prop("C32", "A forest has exactly the trees asked for, each recorded once",
 "growforest grows exactly -nTrees trees for a forest whatever the number of cores: no core stops while trees remain to be begun, and no more are begun than asked for. Only boosting that reaches an infinite weight may end earlier. "
 "Every tree of the last forest, and of no other, is written exactly once to -rfpred and, with -test or -selftest, kept exactly once for prediction; with -scikitforest every tree grown is converted exactly once. "
 "A tree that was kept is never grown again: a new tree object takes its place. Every tree names the target.",
 ["inputs", "configurations", "schedules"], "every number of trees, forests and cores (at least one core), every interleaving of the cores and every combination of options",
 "The loop that hands out trees lives in the command's main, which no test calls; losing, repeating or overwriting a tree leaves a forest that still looks plausible.",
 ["growforest/growforest.go"], [("growing loop", "the closure of growforest's main that grows trees, and the loop that starts it on every core")],
 "phase analysis of all runs of the growing loop on SSA, with the counter's comparisons and its lock", NOTE)

prop("C34", "Importance gives every feature exactly what its splits earned",
 "Each split a growing tree makes adds its impurity decrease exactly once to the importance total of the feature split on and to nothing else, and a feature's entry in the depth record ends as the least depth at which the tree splits on it. "
 "growforest adds, once per tree and after it is grown, the least depth of exactly the features that tree used (depth 0 included) to that feature's mean, and clears the record. NewRunningMeans makes one separate total per feature. "
 "The importance file gives every feature, under its own name, its mean decrease, its number of splits, its total per tree, its total per tree using it, the number of such trees and its mean least depth. "
 "With -ace each forest's importance of each feature and contrast is recorded at its own place, with totals starting anew, and a feature is compared with its own contrast.",
 ["inputs", "configurations"], "every data set, every tree and jungle, and every combination of options",
 "A share credited twice, lost or given to a neighbour changes the ranking slightly and no test knows the right ranking.",
 ["tree.go", "utils.go", "forrest.go", "growforest/growforest.go"], [("credit", "Tree.Grow, Tree.GrowJungle"), ("reports", "growforest's importance and -ace sections")],
 "path-sensitive accounting of every split, report and reset on SSA", NOTE + "The p-value and mean computed by stats.Ttest are not judged here.")

prop("C26", "Boosting re-weights the data once per tree from that tree's own leaves",
 "Every target type with a Boost method is a BoostingTarget and is recognised as one. When growforest boosts (-adaboost or -gbt), and when GrowRandomForest is given a boosting target, the target the trees are grown for is boosted exactly once for every tree, after that tree is grown and with Tree.Partition of that very tree over the training data; "
 "the weight returned becomes that tree's weight, unless it is infinite, before the tree votes or is written. The intercept of a target that has one is recorded with the forest. "
 "AdaBoostTarget and AdaCostTarget: with err the sum of the leaves' Impurity the tree's weight is ln((1-err)/err)/2, or 0 and nothing changes when err is a half or more; otherwise every case with a known category has its weight multiplied once by exp(weight) when it is not of its leaf's most frequent category and by exp(-weight) when it is (and, in AdaCostTarget, by its category's cost), and then all weights are divided by their sum. "
 "NumAdaBoostTarget does the same with weight ln(NormFactor/err), 0 when err exceeds NormFactor, and factor exp(weight*(distance from the leaf's Predicted value - err)). "
 "GradBoostTarget takes LearnRate times the leaf's prediction off every known case's residual once; GradBoostClassTarget adds it to the case's prediction and makes the residual the actual value minus the logistic function (Expit) of the new prediction; both return LearnRate.",
 ["inputs", "histories", "configurations"], "every data set, every partition into leaves, every sequence of boosting rounds and every combination of options",
 "The existing tests only check that boosted forests beat a loose error bound, which forests boosted wrongly often do as well; whether Boost is called at all depends on a type assertion.",
 ["adaboosttarget.go", "adacosttarget.go", "numadaboostingtarget.go", "gradboosttarget.go", "gradboostclasstarget.go", "forrest.go", "growforest/growforest.go"], [("interface", "BoostingTarget in featureinterfaces.go"), ("rounds", "the Boost methods"), ("loops", "growforest's growing loop, GrowRandomForest")],
 "type checking, phase analysis of all runs of the growing loops and normal-form comparison of the update formulas on SSA", NOTE + "What a perfect tree (infinite weight) does to the number of trees is left to C32; whether the sums of Impurity leave out missing values is not judged here.")

prop("C09", "Leaf size and depth limits are kept",
 "BestSplit of numerical and of categorical features never lets the target score, and so never returns, a split of the cases whose value is present that puts fewer than leafSize of them on the left or on the right, whichever of the searches (exhaustive, iterative, random, big, binary, extra random) is used. "
 "Tree.Grow and Tree.GrowJungle never divide a node whose depth has reached maxDepth when maxDepth is greater than 0. "
 "FeatureMatrix.BestSplitter, the growers and GrowRandomForest hand on the leafSize and maxDepth they are given; growforest grows with -maxDepth, and with -leafSize whenever that gives a number greater than 0.",
 ["inputs", "configurations"], "every data set, every draw of the random source, every leaf size of one or more and every maximum depth",
 "The tests grow with leaf size 1 and no maximum depth; a node that is too small or too deep shows in no error measure they check.",
 ["densenumfeature.go", "densecatfeature.go", "featurematrix.go", "tree.go", "forrest.go", "growforest/growforest.go"], [("searches", "BestNumSplit and the BestCatSplit family"), ("growers", "Tree.Grow, Tree.GrowJungle"), ("options", "growforest's main, GrowRandomForest")],
 "linear-inequality entailment over path conditions and loop invariants on SSA", NOTE + "The branch of missing values may hold fewer cases than leafSize. That the children hold the cases the split was scored on is C02 and C10.")

prop("C10", "The split returned is the one whose score is returned",
 "BestSplit of numerical and of categorical features returns a split together with the score of that very split: the left and right lists handed to the target when the best score was computed are exactly the cases the returned split sends left and right, among the cases whose value is present. "
 "(For a feature with two categories the search may count the sides the other way round.) Every split scored replaces the best one if and only if its score is greater, and no split tried later changes the one returned. "
 "FeatureMatrix.BestSplitter likewise returns feature, split and score of one and the same search over the node's cases, replacing the best when the new score is greater and only then. The score is the one the feature's search returned; "
 "with evaloob it is the out-of-bag impurity less that of the out-of-bag cases divided by the split; with vet the score of the best split against a copy of the target permuted over the same cases is taken off.",
 ["inputs", "configurations"], "every data set, every draw of the random source and every combination of search, vetting and out-of-bag evaluation",
 "The tests run each search on one or two small tables where the best split is also the last one tried or the only one.",
 ["densenumfeature.go", "densecatfeature.go", "featurematrix.go"], [("searches", "BestNumSplit and the BestCatSplit family"), ("choice", "FeatureMatrix.BestSplitter")],
 "relational path analysis of (split, score) pairs across nested loops on SSA", NOTE + "That the sort orders the cases by value is assumed (it permutes values and cases together: C07). Which splits are tried is not decided here; what a score is worth is C11. A score below 1e-7 means no split.")

prop("C11", "A split's impurity is the average over its branches",
 "SplitImpurity(l,r,m,allocs) of every target is the sum over its branches l, r and, when it is given and not empty, m of the branch's number of cases times the target's own Impurity of that branch, divided by the total number of cases in them. UpdateSImpFromAllocs gives the same value for the branches it is given, computed from the counts or sums the previous call on the same allocations left and the cases that moved: "
 "each moved case is counted once more on the left and once less on the right, before anything is computed (MoveCountsRtoL does the same), and a target that goes on from counts or sums leaves those of its branches behind. HDistanceTarget scores by HDist of the counts of l and r, GradBoostTarget by FriedmanScore of the sums of l and r, by the same rules; TransTarget with Alpha 0 by the wrapped target's SplitImpurity. "
 "New allocations hold three separate counters with an entry for every category. A target with its own Impurity has its own SplitImpurity and UpdateSImpFromAllocs. The numerical search calls SplitImpurity for the first split it scores, and hands UpdateSImpFromAllocs exactly the cases that changed sides since the split it scored last.",
 ["inputs", "histories"], "every division of every list of cases, and every sequence of splits a search scores on one set of allocations",
 "The tests check a root split or two; an incremental score that drifts from the true one after the first few gaps still yields plausible splits.",
 ["adaboosttarget.go", "adacosttarget.go", "densecatfeature.go", "densenumfeature.go", "densitytarget.go", "dentropytarget.go", "entropytarget.go", "gradboosttarget.go", "hdistancetarget.go", "l1target.go", "NPtarget.go", "numadaboostingtarget.go", "ordinaltarget.go", "regrettarget.go", "transduction.go", "wrftarget.go"], [("averages", "the SplitImpurity and UpdateSImpFromAllocs methods"), ("moves", "DenseCatFeature.MoveCountsRtoL"), ("search", "DenseNumFeature.BestNumSplit")],
 "polynomial normal forms of every path's result and of the state it leaves, with loop summaries of the counts moved, and an inductive invariant over the search loop, on SSA", NOTE + "Arithmetic is taken as exact, so a drift by rounding is not seen. What Impurity is is C12; branches without cases are not judged.")


prop("C12", "Every impurity is the measure it is documented to be",
 "Impurity(cases, counter) first counts the given cases, each once under its category on a zeroed counter, and gives, with n_i the count of category i and n the number of cases: for a categorical feature 1-sum((n_i/n)^2), Gini; EntropyTarget -sum(p_i ln p_i) over the categories that occur, p_i=n_i/n; DEntropyTarget the same with each term times its category's cost; WRFTarget 1-sum((w_i n_i)^2)/(sum(w_i n_i))^2; "
 "RegretTarget the sum of cost*count over all categories but the one where that is greatest, divided by n; NPTarget the share of positive cases, or, when the positive class is the greatest after its count is divided by Alpha, Kappa*max(0, share of negative cases - Alpha); AdaBoostTarget the weights, and AdaCostTarget weight*cost, summed over the cases not of the most frequent category. "
 "ImpFromCounts of each is the same function of the counts given. A numerical feature's Impurity is sum(x^2)-(sum x)^2/n, the squared distance from the mean; L1Target's is the mean absolute distance of the known values from their mean; NumAdaBoostTarget's the weighted sum of the known cases' distances from the prediction. "
 "Mean, Error (mean squared distance), L1Target.Error, Norm, SumAndSumSquares, GradBoostTarget.Sum, FriedmanScore and HDist are what their names say, over the known values where they skip missing ones. TransTarget's Impurity is the wrapped target's plus Alpha times its density. No Impurity changes the counts after counting.",
 ["inputs"], "every list of cases, every count, weight and cost",
 "The tests compare a few impurities on one eight-case table with a loose bound; a wrong measure only makes trees a little worse.",
 ["densecatfeature.go", "densenumfeature.go", "entropytarget.go", "dentropytarget.go", "wrftarget.go", "regrettarget.go", "NPtarget.go", "adaboosttarget.go", "adacosttarget.go", "l1target.go", "numadaboostingtarget.go", "gradboosttarget.go", "hdistancetarget.go", "transduction.go"], [("measures", "the Impurity and ImpFromCounts methods"), ("counts", "DenseCatFeature.CountPerCat")],
 "closed-form summaries of loops (sums and maxima over the cases or categories) compared as polynomial normal forms with the definitions, on SSA", NOTE + "Arithmetic is taken as exact. DensityTarget, the densities and spans themselves, and the constants GradBoostTarget and HDistanceTarget return where they have no impurity are not judged. How the sides of a split are averaged is C11.")


prop("C13", "Splits with missing values are scored with all three branches",
 "When some of the node's cases miss the value of the feature, BestSplit returns as the decrease of a split it found the impurity of all the node's cases less (n times the impurity after the split of the n cases with a value plus m times the impurity of the m cases without one) divided by n+m, where the cases without a value are exactly those the feature marks missing and their impurity is that of those cases alone. "
 "When none of the cases misses its value, or the search found no split, the decrease is the search's own.",
 ["inputs"], "every pattern of missing values in the node's cases, every feature and target",
 "The tests' features have no missing values where splits are scored; a wrong correction only changes which feature is preferred.",
 ["densenumfeature.go", "densecatfeature.go"], [("correction", "DenseNumFeature.BestSplit, DenseCatFeature.BestSplit")],
 "polynomial normal form of the returned score per path, with aliasing of the scratch lists, on SSA", NOTE + "n times the impurity after the split is written with the decrease among the n cases: n*(impurity before - decrease).")


prop("C23", "A leaf predicts what the cases in it say",
 "FindPredicted gives, for the cases of a leaf: a categorical target its most frequent category among the cases whose category is known, the first of equals; WRFTarget the category with the greatest weight*count of known cases; RegretTarget the greatest cost*count; NPTarget the greatest count after the positive class's is divided by Alpha; TransTarget the greatest count after that of Unlabeled is multiplied by Beta, Unlabeled if no count is greater than 0; "
 "a numerical target the mean of the known values; OrdinalTarget the most frequent class among the known values, truncated, the first of equals; GradBoostClassTarget sum(r)/sum((y-r)(1-y+r)) with r the residuals and y the classes; DEntropyTarget the cost of the cases labelled True as a share of the cost of all; HDistanceTarget the share of cases of its positive class. Numbers are written in full, so that they read back as the same number. "
 "Every other target predicts what the feature it wraps does. Mode, Modei and Predicted agree with this.",
 ["inputs"], "every leaf, every pattern of missing values, every weight and cost",
 "The tests look at a few leaves with an obvious majority; leaves with missing values, ties or costs are never looked at.",
 ["densecatfeature.go", "densenumfeature.go", "wrftarget.go", "regrettarget.go", "NPtarget.go", "transduction.go", "dentropytarget.go", "hdistancetarget.go", "ordinaltarget.go", "gradboostclasstarget.go"], [("predictions", "the FindPredicted methods"), ("modes", "DenseCatFeature.Mode and Modei, OrdinalTarget.Mode")],
 "closed-form summaries of loops (sums and first maxima over the cases or categories) compared with the definitions, and the method sets of all targets, on SSA", NOTE + "Arithmetic is taken as exact. DensityTarget predicts a product over features, which is not judged, nor is DenseNumFeature.Mode, which no leaf uses.")


prop("C33", "Ballots tally what was voted",
 "A RunningMean that is given a value v with a weight w other than 0 (neither NaN) changes its mean m and weight c to (m*c+w*v)/(c+w) and c+w; other values change nothing, and Add is with weight 1. Read gives the mean and the weight. Vote reads the number in the prediction and adds it, with its weight, to the running mean (NumBallotBox) or the sum (SumBallotBox) of the case it is for and of no other case; a prediction that is no number changes nothing. CatBallotBox.Vote adds the weight to that category for that case. "
 "Tally gives the mean written in full, the sum, or the category with the greatest total weight, the first by label of equals; NA for a case no vote with a weight greater than 0 was cast for (a sum is then 0). New ballot boxes have an empty ballot of its own for every case. "
 "TallySquaredError is the mean of the squared differences over the cases with a known value and a vote; NumBallotBox.TallyError is that over the variance of the known values, TallyR2Score 1 less that; CatBallotBox.TallyError is 1 less the mean over the categories of the share of the known cases of the category whose tally is it.",
 ["inputs", "histories"], "every sequence of votes and every feature they are compared with",
 "The tests cast one or two votes a case for cases that all have values.",
 ["utils.go", "numballotbox.go", "sumballotbox.go", "catballotbox.go"], [("running mean", "RunningMean.WeightedAdd, Add, Read"), ("ballots", "Vote, Tally, TallyNum of the ballot boxes"), ("errors", "TallySquaredError, TallyError, TallyR2Score")],
 "strongest postconditions of the loop-free methods and closed-form summaries of the loops of the others, as rational normal forms, on SSA", NOTE + "Arithmetic is taken as exact. A category of which no case is known has no share: the error is then not a number. That concurrent votes do not get lost is the locking property's.")


prop("C35", "What is reported for a case is that case's own",
 "applyforest lets every tree of the forest it is given (-rfpred) vote exactly once on the matrix it is given (-fm), into one ballot box for the cases of that matrix: of sums with -sum, else of means with -mean or when the forest's target begins with N unless -mode is given, else of categories. With -preds it then gives every case, in order, one line: its own label, its own prediction (the tally; with -sum, or when the forest has an intercept other than 0, the sum or mean of that case plus the intercept, through Expit with -expit), and its own value of the forest's target, or NA when the matrix has no such feature. With -votes every case gets a row of its own label and its own total for every category, in the order of the header. "
 "growforest -oobpreds gives every case one line: its own label, what was tallied for it out of bag, and its value of the target as it was read. With growforest -test or -selftest every tree kept votes exactly once on the testing matrix (the training one only when no file is given), into a ballot box for the target's kind and that matrix's cases, and the error printed after that compares the tallies with the target of that matrix: for training data the target before any boosting.",
 ["inputs", "configurations"], "every matrix, forest and combination of flags",
 "The tests run neither command; a column taken from the wrong matrix or a vote cast twice still gives plausible numbers.",
 ["applyforest/applyforest.go", "growforest/growforest.go"], [("predictions and votes", "applyforest's main"), ("out of bag predictions", "growforest's main, -oobpreds"), ("testing", "growforest's main, -test and -selftest")],
 "provenance of what is written, per path of one turn of each loop of the commands, with index correspondence and exactly-once voting, on SSA", NOTE + "What Vote, Tally and TallyError do is the forests' and the ballots' own properties. The scores growforest prints per label are not judged, nor what the commands print about their progress.")


prop("C36", "Leafcount counts every leaf of every tree of every forest once",
 "SparseCounter.Add raises the count at the row and column given by the value given and changes no other; WriteTsv writes every count that is not 0 once, with its row and column. GetLeaves, given a counter, adds 1 for every case at every node that has a splitter, under the place of that splitter's feature in the matrix, and counts nothing else. "
 "leafcount hands every file named by -rfpred to a worker once. For every tree of every forest read it adds 1 for every ordered pair of cases of every leaf of the matrix given (-fm), a case with itself included; -leaves gets these counts, -branches those GetLeaves made, and -splits, as JSON, one entry for every node with a splitter of every tree under the splitter's feature: the threshold written in full, or all labels that go left, joined by commas.",
 ["inputs"], "every forest, every matrix, every list of files and every sequence of counts",
 "No test runs leafcount; counts that are off by a case or a tree look like any others.",
 ["utils.go", "tree.go", "leafcount/leafcount.go"], [("counters", "SparseCounter.Add, WriteTsv"), ("nodes", "Tree.GetLeaves"), ("co-occurrence", "leafcount's main and workers")],
 "strongest postcondition of the counter, and exactly-once analysis with index correspondence over the nests of loops, on SSA", NOTE + "That a tree's walk reaches every node with its own cases is the voting property's; that no count gets lost between workers and that the results are read after them are those of the locks.")


prop("C37", "Matrices are written and read cell for cell",
 "WriteCases writes a line of a mark and the labels of the cases given and then, for every feature in order, a tab-separated line of its name and its value (GetStr) of each case given, in order. WriteArffCases writes the relation, one @ATTRIBUTE line per feature in order (its name and NUMERIC, or all labels of a DenseCatFeature in braces), @DATA, and one comma-separated record per case given with the value of every feature, \"?\" where it is missing. "
 "WriteLibSvm (all cases) and WriteLibSvmCases (the cases given) write one space-separated record per case: the target's own value of the case, then j+1:value for every value that is not zero of every feature j of an encoding of copies of all features but the target, in order, whose missing values were filled in before; WriteLibSvmCases leaves out the encoding only if no feature is categorical. "
 "LoadCases makes every record up to the end of the data one case: the i-th field behind the label is appended to feature i, the label is the first field or the number of the case. ParseAFM makes every row (ParseFeature) or, if the first label starts with N:, C: or B:, every column one feature in order; ParseARFF every @attribute line; ParseFeature appends every field behind the name. The types are the ones the names (N:) or the attributes (numeric, real) give. "
 "ParseLibSVM gives the first feature the first word of every line and every other feature exactly one value per line: the one given with its number, or 0, also for the lines before its first.",
 ["inputs"], "every matrix, every list of cases and every file",
 "The tests write or read three small files; a value in another's place is still a value.",
 ["featurematrix.go", "arff.go", "libsvm.go"], [("writers", "FeatureMatrix.WriteCases, WriteArffCases, WriteLibSvm, WriteLibSvmCases"), ("readers", "FeatureMatrix.LoadCases, ParseAFM, ParseFeature, ParseARFF, ParseLibSVM")],
 "output grammar extracted from all paths and loops and matched with the layout of the format; exactly-once and index correspondence analysis of the readers, on SSA", NOTE + "What a field's text means to a feature (Append, GetStr, missing markers) is C02, the index of the features C05, what is encoded C03, errors C18, C19 and C28. encoding/csv quotes and splits as documented. A target that is missing in a LibSVM file is written as what its feature stores.")


prop("C38", "Imputing and shuffling change exactly what was asked for",
 "ImputeMissing gives every case whose value is missing the mean (DenseNumFeature) or the commonest category (DenseCatFeature) of all the feature's known values, as they were before anything was filled in, and its mark is cleared; values that are known stay as they are. FeatureMatrix.ImputeMissing does this for every feature. "
 "growforest and nfold impute the whole matrix exactly when -impute is given: growforest before it copies the target or grows a tree, nfold before anything is encoded or written. "
 "Before the first tree growforest shuffles the target exactly when -permute is given, and before it is copied for the out-of-bag error; shuffles exactly the features other than the target whose name matches -shuffleRE; adds exactly -nContrasts contrasts, and a contrast of every feature with -contrastall (or -ace). Between the forests of -ace only contrasts are shuffled.",
 ["inputs", "configurations"], "every matrix and combination of flags",
 "The tests impute one small feature and never run the commands; a value filled with something else, or data left as they were, look like any others.",
 ["densenumfeature.go", "densecatfeature.go", "featurematrix.go", "growforest/growforest.go", "utils/nfold/main.go"], [("imputing", "DenseNumFeature.ImputeMissing, DenseCatFeature.ImputeMissing, FeatureMatrix.ImputeMissing"), ("preparing the data", "growforest's main, nfold's main")],
 "exactly-once and every-turn analysis of the loops that change the data, order of their effects, and dominance of each flag over what it asks for, on SSA", NOTE + "That Mean and Modei are what they are called is C23's, how a feature is shuffled and contrasts are made C06's and C03's. A feature without any known value has neither mean nor mode; what it is filled with is not judged.")


prop("C39", "An exported scikit tree is the tree that was grown",
 "BuildScikitTree adds every node it reaches from the node given, through left and right branches, exactly once to the list of nodes, counts it in NodeCount, and raises MaxDepth to the greatest depth of a node. A node without a splitter gets -1 for both children; one with a splitter its own Featurei and its splitter's Value, and LeftChild and RightChild are the places in the list of its own left and right child. NewScikitTree makes a tree without nodes for the number of features given, and the names in the file are scikit-learn's. "
 "growforest with -scikitforest converts every tree from its root into an empty tree of its own, keeps it once it is converted, and writes the list of all trees kept, after the last, to the file named.",
 ["inputs", "configurations"], "every tree and every run of growforest with -scikitforest",
 "No test converts a tree or reads the file; a child that points to another node still makes a tree.",
 ["sklearn_tree.go", "growforest/growforest.go"], [("conversion", "NewScikitTree, BuildScikitTree"), ("file", "growforest's main, -scikitforest")],
 "strongest postcondition of every way through the conversion, with the number of nodes as ghost state across the recursive calls and freshness of the list written through; struct tags from the type checker, on SSA", NOTE + "Missing branches, categorical splits, impurities and values are not part of the export (its documentation says it is partial), and the number of features growforest gives is not judged. How many trees are converted is C32's.")


prop("C40", "The options given on the command line are the ones grown with",
 "growforest grows every tree with the -splitmissing, -force, -vet, -evaloob and -extra given, a jungle exactly with -jungle, and the number of features to try that -mTry gives as a count or as a fraction of the features, or the rounded up square root of their number where it gives none. "
 "Each kind of target (-density, -l1, -ordinal, -gbt, -adaboost, -NP, -cost, -dentropy, -adacost, -rfweights, -entropy, -hellinger, -trans_unlabeled) is used only when its own option is given, is made with the parameters of the options named for it (-NP_pos, -NP_a, -NP_k, -positive, -trans_alpha, -trans_beta, the learning rate, the costs or weights of the option's own text) and is not replaced by one without it; and an option that applies to the kind of the target feature is not ignored, unless another option of the same group is given. "
 "ParseAsIntOrFractionOfTotal gives a text with a dot that part of the total, rounded up, another text its number, and 0 for what is neither. "
 "Tree.Grow, Tree.GrowJungle and GrowRandomForest hand on the options they are given; FeatureMatrix.BestSplitter draws no more often than mTry unless forced, and numeric features draw a split at random only with -extra.",
 ["configurations", "inputs"], "every combination of options and every data set",
 "The options are parsed in main, which no test runs; a forest grown with another option than the one given is still a forest, with plausible predictions.",
 ["growforest/growforest.go", "utils.go", "tree.go", "forrest.go", "featurematrix.go", "densenumfeature.go"], [("options", "growforest's main"), ("sizes", "ParseAsIntOrFractionOfTotal"), ("handing on", "Tree.Grow, Tree.GrowJungle, GrowRandomForest, FeatureMatrix.BestSplitter, DenseNumFeature.BestSplit")],
 "path-sensitive value flow on SSA from the variables of the command line's options to the arguments of the growing calls and of the targets' constructors, with the conditions of every way there; reachability of a growing call avoiding a constructor its option asks for", NOTE + "Which option wins when two of one group are given, and what a target computes (C11, C12, C23, C26), are not judged here; -leafSize, -maxDepth, sampling and candidates are C09, C29 and C24.")


prop("C27", "Results do not depend on the order maps are iterated in",
 "No value CloudForest computes, returns or writes depends on the order in which Go happens to iterate over a map: modes and tallies with ties, the labels of categorical splits in forest files and leafcount's split records, and the rows and columns of the sparse counts are the same in every run. "
 "Wherever the code ranges over a map, what it gathers is put in order before it is used, or is such that the order cannot matter (a count, a total of whole numbers, the entry that is greatest by value and then by key, a write to the place of the entry's own key).",
 ["inputs", "schedules"], "every content of every map and every order of iteration",
 "Go randomises the order of iteration; a test sees one order per run, and most inputs have no ties.",
 ["densenumfeature.go", "densecatfeature.go", "catballotbox.go", "forestwriter.go", "utils.go", "leafcount/leafcount.go"], [("ties", "DenseNumFeature.Mode, CatBallotBox.Tally"), ("files", "ForestWriter.DescribeMap, SparseCounter.WriteTsv, leafcount's main")],
 "order-independence analysis of every loop over a map on SSA (commutativity of the gathered state, taint of early exits and effects)", NOTE + "Sums of floating point numbers count as depending on the order. Maps handed to fmt or encoding/json are printed in order by the library.")


prop("C28", "What cannot be written is reported",
 "FeatureMatrix.WriteCases, WriteLibSvm, WriteLibSvmCases and WriteArffCases return an error whenever the writer they are given fails, at whatever point of the output; they return nil only when everything, including what a buffer keeps back, was handed to the writer without an error. "
 "ForestWriter and SparseCounter.WriteTsv, which return nothing, end the program with log.Fatal when the writer fails. growforest, applyforest, leafcount, nfold and toafm end with a failure (log.Fatal) when a file they are to write (forest, scikit forest, predictions, votes, importances, counts, splits, feature matrices, folds) cannot be created or written.",
 ["fault_sequences"], "every sequence of failing and succeeding writes",
 "No test lets a write fail; a full disk leaves a truncated file that looks like a finished one.",
 ["featurematrix.go", "libsvm.go", "arff.go", "forestwriter.go", "utils.go", "growforest/growforest.go", "applyforest/applyforest.go", "leafcount/leafcount.go", "utils/nfold/main.go", "utils/toafm/main.go"], [("writers", "the functions that take an io.Writer"), ("commands", "the mains")],
 "error-flow and flush typestate analysis over all paths on SSA", NOTE + "The errors of Close on files are not asked for (os.File keeps nothing back), nor those of writing the CPU profile and of the console. csv and bufio writers keep the first error, so a Write on them may be left unchecked if Flush and Error are not.")
