def P(id, title, statement, over, text, why, files, mech, state=(), observe=(), note="", **kw):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text),
             why_tests_cant=why,
             anchors=dict(files=list(files), mechanism=[dict(name=n, where=w) for n, w in mech],
                          state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                          observe_at=list(observe), hook_needed=None), note=note)
    d.update(kw)
    return d


NETNOTE = ("Bounded: TLC enumerates every network of up to 4 (quick) or 5 (thorough) nodes over two binary variables and proves the "
           "definitions on them; each one, plus seeded random networks up to about 45 nodes, is built with the real code and every "
           "recorded answer is checked by TLC. Trusts the driver's projection (node numbering, exact rounding of exp(log-value)) and TLC.")

PROPS = [
    P("C01", "Soft inference computes the network polynomial at every node",
      "For every network (sums, products and leaves in any acyclic arrangement, shared subnetworks reached at different depths and single leaves included) and every partial assignment, "
      "all ways of evaluating it (recursively, iteratively, with one variable overridden, or into a table of values per node) give the logarithm of the weighted sum/product of the leaf values, "
      "an unobserved variable counting as marginalised. Results that are far too small for a float64 outside log space are still right. Evaluation changes neither the network nor the assignment.",
      ["inputs", "histories"], "all networks, all partial evidence, any sequence of evaluations, weight changes and added children",
      "The suite evaluates two fixed tree-like networks on a handful of assignments; it never reaches a node shared at two depths, a marginalised variable in a shared leaf, a zero weight or underflow.",
      ["spn/utils.go", "spn/sum.go", "spn/product.go", "spn/indicator.go", "spn/multinom.go", "spn/gaussian.go", "utils/log.go", "spn/topo.go"],
      [("bottom-up evaluation in topological order", "spn/utils.go: Inference, InferenceY, StoreInference"), ("recursive evaluation", "spn/sum.go, spn/product.go: Value"), ("log-sum-exp", "utils/log.go: LogSumExp")],
      [("table", "value of each node under a ticket", "spn/storer.go")], ["Value", "Inference", "InferenceY", "StoreInference"], note=NETNOTE),
    P("C02", "MAP inference returns the max-product value and a state that attains it",
      "For every network and partial evidence, the MAP value reported at a node (recursively or in the stored table) is the max-product value: sums take the best weighted child, products multiply, unobserved leaves take their mode. "
      "On a complete and decomposable network the returned state assigns exactly the variables of the scope, keeps every evidence value and attains that MAP value; the traced sum choices name a maximising child for exactly the sums on the induced tree. "
      "Evidence of probability zero still yields such a state instead of a crash.",
      ["inputs"], "all networks and all partial evidence; ties may be broken either way",
      "One fixed network with one evidence is tested; ties, zero-probability evidence, indicator leaves, shared nodes and unequal depths are not.",
      ["spn/utils.go", "spn/sum.go", "spn/product.go", "spn/multinom.go", "spn/indicator.go", "spn/gaussian.go"],
      [("StoreMAP", "spn/utils.go"), ("TraceMAP", "spn/utils.go"), ("ArgMax/Max", "spn/sum.go, product.go, leaves")],
      (), ["Max", "ArgMax", "StoreMAP", "TraceMAP"], note=NETNOTE),
    P("C03", "Traversals visit each reachable node once, in the promised order",
      "For every acyclic network, each topological sort delivers every node reachable from the root exactly once with children before parents in a queue (parents first in a stack), and a sort told to stop delivers exactly the nodes seen so far. "
      "Breadth- and depth-first searches call the function once per node, never before one of its parents, in nondecreasing distance for breadth-first, stop when told to and do not look below skipped nodes. "
      "Node counts by type and heights (the longest path) agree with the graph.",
      ["inputs"], "all rooted DAGs, all stop positions and skip sets",
      "Tests compare the order on two fixed graphs whose shared nodes all lie at one depth.",
      ["spn/topo.go", "spn/search.go", "spn/utils.go", "spn/node.go", "common/queue.go", "common/stack.go"],
      [("Tarjan and DFS sorts", "spn/topo.go"), ("searchFunc", "spn/search.go"), ("ComputeHeight, Height", "spn/utils.go, spn/node.go")],
      (), ["TopSortTarjan", "TopSortTarjanRec", "TopSortTarjanFunc", "TopSortDFS", "PostOrder", "BreadthFirst", "DepthFirst", "CountNodes", "ComputeHeight", "Height"], note=NETNOTE),
    P("C04", "Scopes, completeness and decomposability are decided exactly",
      "Computing the scope gives every node exactly the set of variables of the leaves below it, without duplicates, also after the network has grown. "
      "The completeness test is true exactly when, at every sum of the network, all children have the same scope; the decomposability test is true exactly when, at every product, the children's scopes are pairwise disjoint.",
      ["inputs", "histories"], "all networks, valid or not, with a defect at any depth; repeated computation after adding children",
      "No test calls these functions; a defect below the root is never looked at.",
      ["spn/utils.go", "spn/sum.go", "spn/product.go", "spn/node.go"],
      [("ComputeScope", "spn/utils.go"), ("Complete, Decomposable", "spn/utils.go"), ("cached scopes", "spn/sum.go, spn/product.go: Sc")],
      [("sc", "cached scope of a node", "spn/node.go")], ["ComputeScope", "Sc", "Complete", "Decomposable"], note=NETNOTE),
    P("C05", "Saving and loading a network gives back the same network",
      "For every network, serializing and deserializing it (in memory or through a file, once or repeatedly) yields a network with the same nodes, the same sharing, the same child order, exactly the same weights and leaf parameters, and the same inference values. "
      "Saving does not change the network in memory, and a serialized form keeps meaning the network it was made from.",
      ["inputs", "histories"], "all networks over all leaf types with arbitrary float64 parameters",
      "No test serializes anything.",
      ["spn/serial.go", "io/spn.go", "spn/sum.go", "spn/product.go", "spn/multinom.go", "spn/gaussian.go", "spn/indicator.go"],
      [("Marshal/Unmarshal", "spn/serial.go"), ("GobEncode/GobDecode per node type", "spn/*.go"), ("SaveSPN/LoadSPN", "io/spn.go")],
      (), ["spn.Marshal", "spn.Unmarshal", "io.SaveSPN", "io.LoadSPN"],
      note=NETNOTE + " Parameters are compared bit by bit; structure through the canonical post-order numbering of an ordered rooted DAG."),
    P("C07", "Derivatives are the partial derivatives of the network polynomial",
      "For every network and evidence, the derivative stored for a node is the partial derivative of the root value with respect to that node, and the one stored for a weight is the partial derivative with respect to that weight, whatever collection drives the search. "
      "Batch weight derivatives add up over the instances since the table was last reset, and hard derivatives add exactly one to the chosen edge of each sum on a MAP trace. None of this changes the network.",
      ["inputs", "histories"], "all networks, all evidence, all sequences of accumulations",
      "One small tree with one assignment is tested; a node with parents at different depths is not.",
      ["learn/derive.go", "spn/utils.go", "spn/storer.go"],
      [("DeriveSPN", "learn/derive.go"), ("DeriveWeights, DeriveWeightsBatch", "learn/derive.go"), ("DeriveHard", "learn/derive.go")],
      (), ["DeriveSPN", "DeriveWeights", "DeriveWeightsBatch", "DeriveHard"], note=NETNOTE),
    P("C06", "Storer tables are isolated from each other and keep what was stored",
      "Every ticket names its own table. What is stored under a node and position of a live ticket is what is read back there, and nothing done through one ticket (storing, deleting, resetting) changes what another ticket holds. "
      "A new ticket differs from every ticket handed out since the last purge; a deleted ticket holds nothing, and storing succeeds exactly on live tickets. Goroutines that store and read through different tickets do not disturb each other.",
      ["histories", "schedules"], "all sequences of storer operations over any tickets, nodes and positions",
      "The suite never deletes or resets a table between other operations and uses at most two tickets.",
      ["spn/storer.go"], [("ticket allocation", "spn/storer.go: NewTicket"), ("tables", "spn/storer.go: Store, Delete, Reset, Purge")],
      [("tables", "ticket -> node -> position -> value", "spn/storer.go")], ["NewTicket", "Store", "StoreSingle", "Value", "Entry", "Single", "Exists", "ExistsSPN", "Table", "Delete", "Reset", "ResetTickets", "Purge"],
      note="Bounded: TLC explores every history of storer operations over 2 tickets, 2 nodes and 2 positions to a fixed depth; a cover of them and long random histories are replayed on the real code and every answer is checked by TLC."),
    P("C11", "Queues, stacks and their inversions keep every element in the agreed order",
      "A queue gives back its elements in the order they were put in and a stack in the reverse order; peeking, indexing, size and emptiness agree with the contents at any time. "
      "Taking from the back of a queue removes only the last element, Invert reverses the contents, Reset empties them and Shrink changes nothing that can be seen.",
      ["histories"], "all interleavings of the operations on any number of collections, over any length",
      "Tests only enqueue and dequeue a fixed short sequence; growth, shrinking, inversion after partial removal and the back end are not tested.",
      ["common/queue.go", "common/stack.go", "common/collection.go"], [("Queue", "common/queue.go"), ("Stack", "common/stack.go")],
      [("data", "contents", "common/queue.go, common/stack.go")], ["Enqueue", "Dequeue", "DequeueBack", "Peek", "Get", "Push", "Pop", "Give", "Take", "Size", "Empty", "Reset", "Invert", "Shrink"],
      note="Bounded: TLC explores every history of collection operations to a fixed depth; a cover of them and long random histories are replayed on the real code."),
    P("C12", "The concurrency queue runs each function once, within its limit, and Wait waits",
      "However submissions, completions and waits interleave: never more functions run at a time than the queue has slots, every submitted function runs exactly once with a number of its own, Run comes back once the function has its slot (so a full queue blocks the submitter), "
      "a freed slot is used for a pending submission, and Wait comes back exactly when everything submitted before it has finished. The queue can be used again afterwards.",
      ["schedules", "histories"], "all interleavings of submitters, functions and waiters, for every number of slots",
      "There is no test of the conc package; the guarantees are about schedules.",
      ["conc/queue.go"], [("slot table, condition variable and wait group", "conc/queue.go: Run, Wait")], [("allowed", "free slots", "conc/queue.go"), ("wg", "unfinished functions", "conc/queue.go")],
      ["NewSingleQueue", "Run", "Wait"],
      note="The step-level algorithm (spec/SlotAlg.tla) is explored exhaustively with 2-3 submitters, waiters and 1-2 slots, with liveness; the code is bound to the user-level specification by replaying TLC's behaviours inside testing/synctest bubbles (every step is taken when all goroutines are blocked) and by free-running stress under the race detector.",
      technique="TLA+ models of the queue (user level and step level) checked with TLC; behaviours replayed on the real queue in synctest bubbles, under the race detector, and traces validated"),
    P("C14", "Parameters bound to a node stay bound to that node and keep their values",
      "Binding parameters to a node makes exactly that node (sum, product or any leaf) answer with them until it is rebound or unbound; other nodes are not affected, looking up or asking about a binding creates none, and a node without a binding answers with the documented defaults, which then stay its own. "
      "The options are those they were made with or set to, and the learning type is classified consistently by method and hardness.",
      ["histories"], "all sequences of binding, rebinding, unbinding, asking and setting options over any nodes",
      "No test binds parameters to anything but one root.",
      ["learn/parameters/parameters.go", "spn/node.go", "spn/sum.go", "spn/product.go", "spn/multinom.go", "spn/gaussian.go", "spn/indicator.go"],
      [("binding table", "learn/parameters/parameters.go: Bind, Unbind, Retrieve, Exists"), ("per node accessors", "spn/*.go: Parameters")],
      [("record", "node -> parameters", "learn/parameters/parameters.go")], ["Bind", "Unbind", "Retrieve", "Exists", "SPN.Parameters", "Method", "Hardness"],
      note="Bounded: TLC explores every history over 2 nodes and 2 parameter objects to a fixed depth; a cover of them and long random histories are replayed."),
    P("C08", "Generative learning applies exactly the gradient of the data seen",
      "Generative gradient descent changes the weights of a network by the gradient of its value: per instance (or per batch, divided by the batch size, also for a last partial batch) a soft step adds learning rate times the derivative with respect to the weight, "
      "a hard step adds learning rate times the number of MAP traces through the edge divided by the weight, only on edges that were counted; batch and hard steps also subtract twice the L2 factor times the weight; weights are normalised when asked. "
      "Learning from many instances and iterations is the same as one step after the other. Structure, leaves and dataset are not changed, and the learner selected by the bound parameters is the one that runs.",
      ["inputs", "histories"], "all networks with positive weights, all datasets, rates, batch sizes and iteration counts",
      "The only test runs learning on one tiny network and compares a rounded result; batches that do not divide the dataset, shared sums, ties and L2 are not covered.",
      ["learn/generative.go", "learn/derive.go", "learn/parameters/parameters.go"],
      [("GenerativeGD, GenerativeBGD, GenerativeHardGD, GenerativeHardBGD", "learn/generative.go"), ("applyFastGD, applyHGD, applyFastHGD, DeriveApplyWeights", "learn/generative.go, learn/derive.go")],
      [("W", "weights of a sum", "spn/sum.go")], ["Generative", "GenerativeGD", "GenerativeBGD", "GenerativeHardGD", "GenerativeHardBGD"],
      note=NETNOTE + " New weights are compared in units of 1e-6; one application is checked against the exact gradient, longer runs against their decomposition into applications."),
    P("C09", "Discriminative learning follows the conditional gradient and restores the data",
      "Discriminative gradient descent changes the weights by the gradient of log S(Y|X): a soft step by learning rate times (dS/dw(Y,X)/S(Y,X) - dS/dw(X)/S(X)), a hard step by learning rate times the difference of the MAP edge counts with and without the query variables divided by the weight, every sum of the network included, minus the L2 term, averaged over the batch size and normalised when asked. "
      "Afterwards every instance of the dataset again holds exactly the values it had, query variables included.",
      ["inputs", "histories"], "all networks with positive weights, all sets of query variables, all datasets of positive probability which assign the query variables, all batch sizes",
      "No test runs discriminative learning.",
      ["learn/discriminative.go", "learn/derive.go", "learn/variable.go"],
      [("DiscriminativeGD, DiscriminativeBGD, DiscriminativeHardGD, DiscriminativeHardBGD", "learn/discriminative.go"), ("pullValues, pushValues", "learn/discriminative.go"), ("applyDGD, storeDGD, applyDGDFrom, applyHDGD", "learn/discriminative.go")],
      [("W", "weights of a sum", "spn/sum.go"), ("I", "instance whose query variables are taken out and put back", "learn/discriminative.go")], ["Discriminative", "DiscriminativeGD", "DiscriminativeBGD", "DiscriminativeHardGD", "DiscriminativeHardBGD"],
      note=NETNOTE + " New weights are compared in units of 1e-6."),
    P("C10", "Normalisation yields a distribution with the same proportions",
      "Normalising a vector of weights makes it nonnegative and sum to one: nonnegative weights keep their proportions, weights some of which are negative are first moved up together until the smallest is zero, and weights that sum to nothing become uniform. Order is never reversed and magnitudes far from one do not matter. "
      "Normalising a network does this at every sum reachable from the root (each once) and changes nothing else, so that a valid network over normalised leaves then has total mass one.",
      ["inputs"], "all weight vectors and all networks",
      "No test normalises a network; zero and negative sums are never used.",
      ["learn/derive.go", "spn/utils.go"], [("Normalize", "learn/derive.go"), ("norm, NormalizeSPN", "spn/utils.go")], (), ["learn.Normalize", "spn.NormalizeSPN"],
      note="Bounded: TLC enumerates every integer vector of length up to 4 (quick) or 5 (thorough) with entries -2..3 (-3..4), proves the definition on them, and all of them are replayed on the real code, with vectors of any magnitude and random networks."),
    P("C13", "Scores count what was predicted, and concurrent evaluation equals sequential",
      "A score's hits, misses, total, accuracy, confusion matrix, printed and saved form always agree with the predictions registered in it; merging, adding and clearing scores affect no other score. "
      "Evaluating a valid network on a dataset registers exactly one prediction per instance, paired with that instance's expected label: a label of a MAP state, or a most likely label given the instance without its label. "
      "Evaluating concurrently with any number of jobs (also more than instances, or the default) registers the same, without data races. Dataset, labels and network are left as they were, for datasets of any size.",
      ["inputs", "schedules", "histories"], "all valid networks, datasets of any length with or without label values, job counts and sequences of score operations",
      "The score package has no tests.",
      ["score/score.go", "conc/queue.go", "data/manipulate.go"],
      [("Register, Merge, Add, Clear", "score/score.go"), ("Evaluate, EvaluatePosterior, EvaluatePosteriorConc", "score/score.go"), ("Divide", "data/manipulate.go")],
      [("predictions", "pairs of predicted and expected labels", "score/score.go")], ["Evaluate", "EvaluatePosterior", "EvaluatePosteriorConc", "ConfusionMatrix", "Hits", "Misses", "Total", "String", "Save", "Merge", "Add", "Clear"],
      note="Bounded: TLC explores every history of 4 (quick) or 5 (thorough) bookkeeping operations on up to 3 scores; a sample of them, long random histories and evaluations of random networks on up to 37 instances with 1 to 40 jobs are run under the race detector and validated; ties may be predicted either way."),
    P("C19", "Dataset operations keep instances, labels and their pairing intact",
      "Copying, joining, splitting, dividing, partitioning (also by label), shuffling, taking out labels or variables, and merging labels in never lose, duplicate or alter an instance or separate it from its label; what they return shares nothing with the datasets they were given, which stay as they were (only Shuffle works in place). "
      "Partitions have the requested proportions to within one instance, label partitions give every part its whole share of each class and the rest to the part furthest from its share, and parts of a division differ by at most one. "
      "Identical is true exactly for datasets equal in value and order. Matrix and variable forms hold the same values as the dataset.",
      ["inputs", "histories"], "all datasets (empty and incomplete ones included), proportions, part counts and sequences of operations with writes in between",
      "The data package has no tests.",
      ["data/manipulate.go", "learn/variable.go"],
      [("Copy, Join, Split, Divide, Partition, PartitionByLabels, Shuffle, SubtractLabel, SubtractVariable, MergeLabel, ExtractLabels, Identical", "data/manipulate.go"), ("matrix forms, scopes", "learn/variable.go")],
      (), ["data.*", "learn.DataToMatrix", "learn.MatrixToData", "learn.DataToVarData", "learn.CopyScope", "learn.Variable gob encoding"],
      note="Bounded: TLC explores every history of 3 (quick) or 4 (thorough) operations on three small datasets; a sample of them is replayed, with random histories over datasets of up to 50 instances; after each history every dataset ever made is read back. Proportions are dyadic."),
    P("C18", "Variables are grouped exactly by tested dependence",
      "The G-test and the chi-square test call two variables independent exactly when the statistic of their contingency table does not exceed the critical value at the given significance level (a variable with one category, or constant in the data, is independent of all others). "
      "The groups of an independence graph are exactly the connected components of tested pairwise dependence: every variable is in exactly one group, directly or transitively dependent variables are together, and the two constructions agree. "
      "Union-find keeps disjoint sets: union joins exactly two sets and reports the surviving representative, find agrees with it, and the listed members are the whole set. Inputs are not changed.",
      ["inputs", "histories"], "all contingency tables, levels, datasets and sequences of unions",
      "No test touches the independence tests or union-find.",
      ["utils/indep/gtest.go", "utils/indep/chisq.go", "utils/indep/indgraph.go", "utils/unionfind.go"],
      [("GTest, ChiSquareTest", "utils/indep"), ("NewIndepGraph, NewUFIndepGraph", "utils/indep/indgraph.go"), ("MakeSet, Union, Find, UFVarids", "utils/unionfind.go")],
      [("Pa, Ch, rank", "union-find forest", "utils/unionfind.go")], ["GTest", "ChiSquareTest", "ChiSquare", "NewIndepGraph", "NewUFIndepGraph", "MakeSet", "Union", "Find", "UFVarids"],
      note="The specification computes both statistics itself (integer arithmetic, tables of logarithms and of chi-square critical values at six levels) and abstains only within rounding of a critical value. Bounded: TLC enumerates 2x2 and 2x3 tables and union histories over 4 elements; random tables up to 5x5 with 200 observations and graphs over up to 7 variables are added."),
    P("C22", "Leaf distributions are the ones their data or parameters define",
      "A multinomial leaf has the probabilities it was given, add-one smoothed relative frequencies when made from counts, or the uniform distribution; its mass is one, an unobserved variable has value one, and its mode is a most likely value with that value's probability. "
      "A Gaussian leaf is centred on the mean (or a mode) of its counts, values or parameters with their standard deviation, its value is the normal log-density, its maximum is at the centre, and with zero deviation it is a point mass. Means and deviations reported are those of the distribution. "
      "Evidence on the leaf's variable is always kept, evidence on other variables is ignored, and all of this is the same after encoding and decoding; the data given is not changed.",
      ["inputs"], "all count vectors, distributions, values and parameters with a positive total",
      "Tests use one multinomial with fixed probabilities; no test uses counts, modes, Gaussians or moments.",
      ["spn/multinom.go", "spn/gaussian.go"],
      [("constructors and modes", "spn/multinom.go, spn/gaussian.go"), ("Value, Max, ArgMax", "spn/multinom.go, spn/gaussian.go")],
      [("pr, mode", "distribution and its mode", "spn/multinom.go"), ("dist", "normal distribution", "spn/gaussian.go")],
      ["NewMultinomial", "NewCountingMultinomial", "NewScopedCountingMultinomial", "NewEmptyMultinomial", "NewGaussian", "NewGaussianMode", "NewGaussianRaw", "NewGaussianParams", "NewGaussianFit", "Value", "Max", "ArgMax", "Mean", "StdDev", "MuSigma", "Params"],
      note="Exact: probabilities, moments and log-density differences are compared as integers over the denominators the data defines. Bounded: TLC enumerates all count vectors of up to 4 values and counts up to 3 (quick) or 5 and 5 (thorough), all replayed on every constructor, plus random ones up to 12 values. A point mass is only used at a whole number."),
    P("C25", "Log-space arithmetic and statistics are exact over their whole range",
      "Sums and products in log space (of logarithms or probabilities, pairs or slices, with or without signs) equal the logarithm of the exact sum or product, for magnitudes far outside float64 range and with zeros among or instead of the operands, never NaN; their operands are not changed. "
      "Means and standard deviations of counts are exact, trimming removes exactly the given value, and quantiles are consecutive runs of the sorted values that lose none, each with its own size, mean and deviation (one half if constant).",
      ["inputs"], "all operand lists, magnitudes, signs, count vectors, value lists and numbers of quantiles",
      "The utils package has no tests.",
      ["utils/log.go", "utils/stats.go"],
      [("LogSumExp, LogSumExpPair, LogSumLog, LogSum, LogProd, LogSumPair, Trim", "utils/log.go"), ("Mean, StdDev, MuSigma, PartitionQuantiles", "utils/stats.go")],
      (), ["LogSumExp", "LogSumExpPair", "LogSumLog", "LogSum", "LogProd", "LogSumPair", "AntiLog", "Trim", "Mean", "StdDev", "MuSigma", "PartitionQuantiles"],
      note="Operands are small integers times a power of two (exponents -10000..10000), so that results must be integers after undoing the shift. Bounded: TLC enumerates all lists of up to 5 values 0..2 (quick) or 6 values 0..3 (thorough); random lists of up to 220 operands are added, and sums of operands of very different magnitudes, of which only the greatest count."),
    P("C17", "Clustering partitions the rows, by density or around centres",
      "Every clustering keeps every row exactly once, with its values, in exactly one cluster, and leaves its input as it was. "
      "DBSCAN's clusters are exactly the components that dense points (at least mp others within the radius) form with everything within their radius; OPTICS returns noise first and then the components of dense points with their borders. "
      "The k-centre methods return k clusters (k-medoids as many as there are distinct rows, if fewer) and stop only when no row is nearer to the centre (mean, mode or medoid) of another cluster than to its own; k-modes and k-medoids leave no cluster empty. "
      "The metrics are the Euclidean and the Hamming distance.",
      ["inputs"], "all row matrices, radii, densities and numbers of clusters, all random initialisations",
      "The cluster package has no tests.",
      ["utils/cluster"],
      [("DBSCAN, DBSCANData", "utils/cluster/dbscan.go"), ("OPTICS", "utils/cluster/optics.go"), ("KMeans, KMeansData, KMeansDataI, KMeansF, KMeansFData, KMeansI, OldKMeans, OldKMeansF", "utils/cluster/kmeans.go"),
       ("KMode", "utils/cluster/kmode.go"), ("KMedoid", "utils/cluster/kmedoid.go"), ("Euclidean, Hamming", "utils/cluster/metrics")],
      (), ["DBSCAN", "DBSCANData", "OPTICS", "KMeans", "KMeansData", "KMeansDataI", "KMeansF", "KMeansFData", "KMeansI", "OldKMeans", "OldKMeansF", "KMode", "KMedoid", "Euclidean", "EuclideanF", "Hamming", "HammingF"],
      note="The DBSCAN algorithm itself is modelled step by step and proved by TLC, for all point sets of up to 4 (quick) or 5 (thorough) points on a line of 4 or 5 places, to end with the density components; the same point sets are replayed, with random ones in up to 4 dimensions. Values are whole and not negative, radii lie between distances that occur, mp is at least 1 and k at most the number of rows. The mean-based methods of the third-party library are held to partitions only. Stability around modes and medoids, which may be any of several, is decided for up to 8 rows and 3 clusters."),
    P("C15", "The Gens learner returns the network its data dictates, sequential or not",
      "Learning from a dataset gives a complete, decomposable network of total mass one over exactly the given variables, whatever the number of goroutines, and leaves the data and scope as they were. "
      "One variable gives a leaf with its smoothed counts (or an equal mixture of its quantile Gaussians); variables that fall into several independent groups give a product over exactly those groups, learned from all rows; "
      "otherwise the rows are clustered, giving a sum with one child per (non-empty) cluster, weighted by its share of the rows and learned from them, or a fully factorised product if there is one cluster or fewer rows than clusters. "
      "The leaves together account for every value of every row exactly once.",
      ["inputs", "schedules"], "all datasets, scopes, significance levels, cluster parameters, quantile numbers and numbers of goroutines",
      "No test learns a structure.",
      ["learn/gens", "learn/variable.go", "utils/indep", "utils/cluster", "conc"],
      [("Learn, LearnConcurrent, LearnGauss, LearnGaussConcurrent, Binded", "learn/gens/gens.go"), ("DataToVarData, DataToMatrixF, ReflectScope, ExtractInstance", "learn/variable.go")],
      (), ["Learn", "LearnConcurrent", "LearnGauss", "LearnGaussConcurrent", "Binded"],
      note="Density clustering is deterministic, and the whole recursion is decided row by row; under k-means the clusters are not visible, so below the first sum the weights, sizes and the accounting of all rows are decided instead. Statistics within rounding of the critical value may go either way. Bounded: TLC enumerates all datasets of up to 4 (quick) or 7 (thorough) rows over 2 or 3 small variables, replayed, with random ones of up to 30 rows and 6 variables; the concurrent versions run under the race detector."),
    P("C16", "Region-based learners build valid networks over exactly the regions they may",
      "The Dennis-Ventura and the Poon-Domingos learner return complete, decomposable networks over all variables whose mass is one once normalised, with no inner node without children; the data is left as it was. "
      "Sums stand for regions of more than one variable, and their children are products that split the region in two; a region of one variable has Gaussians with the moments of the quantiles of its data. "
      "Dennis-Ventura: one sum for the whole scope and m for any other region, each over all pairs of nodes of the two halves of each of its splits, with positive weights that add up to one. "
      "Poon-Domingos: regions are rectangles of the image, aligned to the resolution or inside one cell of it, with at most m sums each (one for the image); no product occurs twice, and no sum has more children than there are instances.",
      ["inputs"], "all datasets, image sizes, resolutions, numbers of sums, quantiles and clusters, all random choices",
      "The only test of these packages checks two coordinate encodings.",
      ["learn/dennis", "learn/poon"],
      [("Structure, LearnGD", "learn/dennis/dennis.go"), ("expandRegionGraph, graph, region, scope", "learn/dennis"), ("Structure, LearnGD, createRegions, compMap", "learn/poon/poon.go")],
      (), ["dennis.Structure", "dennis.LearnGD", "poon.Structure", "poon.LearnGD"],
      note="Both algorithms are modelled step by step with every random choice open: TLC proves for 4 (quick) or 5 (thorough) variables and 2 clusters that the region graph is finished, reachable and splits correctly, and for all images of up to 2x2 (quick) or 3x2 (thorough) pixels that no reachable sum stays childless. Recorded networks of up to 24 pixels and 6 variables are held to the region rules. The resolution divides both sides of the image and variables are numbered from 0 without gaps, as the code requires."),
    P("C20", "Data, evidence and ARFF files are read as exactly what they say",
      "For every well-formed file, however it is laid out (separators, blank lines, comments, line ends, very long lines, no instances), the parsers return each declared variable with its categories and each row as one instance with its values in order, "
      "the label kept as a variable or apart and evidence beginnings as declared; reading does not change the file. ARFF numbers stand for themselves and need max+1 categories, class labels are numbered as declared, strings as they come, and different labels never share a number; the ARFF conversion writes the same instances. "
      "A random partition splits the instances into a training share and a test share without loss or repetition, each test instance without its label and with that label apart, and is a function of the seed and of what that seed was used for since it was set.",
      ["inputs", "histories"], "all well-formed files, all shares and all sequences of seeds",
      "The only test of the package needs a file that is not there.",
      ["io/input.go", "io/arff.go"],
      [("ParseData, ParseDataNL, ParseEvidence", "io/input.go"), ("ParsePartitionedData", "io/input.go"), ("ParseArff, ARFFToData", "io/arff.go")],
      [("glrand, glrseed", "generator of partitions and its seed", "io/input.go")], ["ParseData", "ParseDataNL", "ParseEvidence", "ParsePartitionedData", "ParseArff", "ARFFToData"],
      note="The readers are modelled line by line; TLC proves for all files of up to 5 lines over 2 variables (quick) or 7 lines over 3 (thorough) that the reader reaches the file's meaning, and each file is replayed in random layouts, with random larger files. Variables are declared in order from 0, values are whole numbers, ARFF tokens contain no blanks or commas, and the ARFF conversion takes classes only, as the code requires. The size of a test share may be one off the exact share."),
    P("C21", "Every image becomes exactly one row with its pixels and its class",
      "Converting folders of PBM or PGM images writes a data file that declares one variable per pixel (and the class), and for each image exactly one line with its pixels in order and the number of its folder, folders being numbered consistently from 0; nothing else in the directory takes part and no image is changed. "
      "The concurrent conversion writes the same rows, never torn or interleaved, free of data races. Evidence files list the images class by class and say where each class begins.",
      ["inputs", "schedules"], "all image sizes, pixel layouts and folder layouts, all interleavings of the readers",
      "No test converts an image.",
      ["io/pbm.go", "io/pgm.go"],
      [("PBMFToData, PBMToData, PBMFToEvidence", "io/pbm.go"), ("PGMFToData, BufferedPGMFToData, PGMFToEvidence", "io/pgm.go")],
      [("out", "the output file, written under a lock", "io/pgm.go")], ["PBMFToData", "PBMToData", "PBMFToEvidence", "PGMFToData", "BufferedPGMFToData", "PGMFToEvidence"],
      note="The buffered conversion is modelled with its slots, lock and goroutines: TLC proves for up to 2 folders of 3 images and 2 slots (quick), 3 of 3 and 3 slots (thorough) that rows are whole, that every image has one and that it ends; all these folder layouts are replayed with random images, under the race detector. Images have no comment lines and there is at least one image, as the code requires."),
    P("C23", "An npy reader delivers the rows of the matrix, in order, each once",
      "Opening an npy file succeeds exactly for two-dimensional arrays of whole numbers (a column-major one may be refused, but is never read as if it were row-major; a file that ends before its last row is refused or fails when read). Between resets, reads deliver the rows in file order, each at most once, "
      "the last column as the label and the others as the variables 0, 1, ...; a read that asks for more rows than are left returns an error, not made-up rows, a panic or no answer. "
      "A balanced read over c classes returns exactly n rows, an even share of each class, the first that are left, and an error if some class has not enough left. A reset starts over.",
      ["inputs", "histories"], "all matrices, integer types and byte orders, all sequences of reads, balanced reads and resets",
      "The package has no tests.",
      ["io/npy.go"],
      [("NewNpyReader, Read, ReadAll, ReadBalanced, Reset, Close", "io/npy.go")],
      [("position", "rows consumed since the last reset", "io/npy.go")], ["NewNpyReader", "Read", "ReadAll", "ReadBalanced", "Reset"],
      note="TLC enumerates all matrices of up to 3 rows (quick) or more (thorough) with all short sequences of reads, balanced reads and resets, each of which is replayed; random matrices of all integer types (up to 350 rows or 220 columns, values over their whole range) are added, some of whose files end too early. Labels of a balanced read lie in 0..c-1; after an error the reader may stand anywhere but before the rows it has delivered, until it is reset."),
    P("C24", "Written images are valid netpbm files that show the given pixels",
      "Every image written (PBM, PGM, PPM, and completions) is a valid file of the format its magic number names: the declared size, no sample above the declared maximum, exactly as many samples as pixels, showing each variable's value at its pixel. "
      "A completion shows given pixels in grey (or blue) and completed ones in green, separated by one red line in the middle, across for top and bottom, down for left and right. "
      "Splitting an instance into halves gives two parts that together are the instance, every pixel on the side its position says.",
      ["inputs"], "all image sizes, values, maxima and orientations",
      "No test writes an image.",
      ["io/pbm.go", "io/pgm.go", "io/ppm.go", "io/images.go"],
      [("VarSetToPBM", "io/pbm.go"), ("VarSetToPGM", "io/pgm.go"), ("VarSetToPPM", "io/ppm.go"), ("ImgCmplToPGM", "io/pgm.go"), ("ImgCmplToPPM", "io/pbm.go"), ("SplitHalf", "io/images.go")],
      (), ["VarSetToPBM", "VarSetToPGM", "VarSetToPPM", "ImgCmplToPGM", "ImgCmplToPPM", "SplitHalf"],
      note="TLC enumerates all small image sizes (sides up to 5 in the quick tier) and orientations, each replayed, with random larger images. Images are complete and numbered from 0; an odd side may be cut at either middle."),
    P("C27", "Drawings and listings show exactly the network",
      "The Graphviz drawing, the graph-tool script (which runs) and the textual listing of any network unroll to the same tree as the network: the same kinds of nodes, the same children (counted as often as they occur), every weight at its edge, and every leaf with its variable (in drawings) or its mean and deviation (in the listing). "
      "Drawing does not change the network.",
      ["inputs"], "all networks, shared nodes, repeated children and single leaves included",
      "The only test writes one listing and never looks at it.",
      ["io/output.go", "spn/print.go"],
      [("DrawGraph, DrawGraphTools", "io/output.go"), ("PrintSPN", "spn/print.go")],
      (), ["DrawGraph", "DrawGraphTools", "PrintSPN"],
      note="TLC proves for all networks of up to 4 (quick) or 5 (thorough) nodes that the three drawing algorithms, modelled step by step, end with a drawing that shows the network and that a drawing with one edge less or one label changed does not; each of these networks and random ones (up to 60 nodes when unrolled) are drawn by the real code and what it wrote is read back (scripts are run with a stand-in for graph-tool). Weights are multiples of 1/8 so that three decimals say them exactly. A shared node may be drawn once or once per parent."),
    P("C28", "A download is complete or did not happen",
      "Downloading a URL to a path (a file, or a directory, where it takes the URL's name) leaves the complete contents there and nothing else; a file that exists is neither requested nor changed unless overriding was asked for. "
      "When anything fails (no connection, an error status, a connection that breaks at any point, a missing directory) the call returns an error instead of crashing and the directory is as it was, the old file included, so that a later attempt succeeds. "
      "Datasets are downloaded once, from their own URL, and then read from the cache: each call returns exactly the published rows or nothing, never a part, an error page or another dataset; pairs of test and training data come both or not at all.",
      ["inputs", "histories", "fault_sequences"], "all histories of downloads, overrides, dataset calls and network failures",
      "No test downloads anything.",
      ["io/http.go", "data/datasets.go"],
      [("DownloadFromURL", "io/http.go"), ("getDataset, pullMNIST", "data/datasets.go")],
      [("cache", "files below .cache/data", "data/datasets.go")], ["DownloadFromURL", "Caltech", "Digits", "Olivetti", "MNIST1000", "and the other dataset functions"],
      note="TLC proves on all histories of 2 (quick) or 3 (thorough) operations, with the download modelled in steps that may break at each, that files are always whole and that failures change nothing; each history (a sample of the thorough ones) is replayed against a transport inside the driver's process that fails as told, with random longer histories. Crashes of the process itself are not covered."),
    P("C26", "Random draws are repeatable and race-free, logs complete, colours right",
      "What the library draws (numbers, normal values, colours, combinations) lies in the range asked for and is a function of the seed and of what was drawn since it was set; a combination consists of different pairs. Several goroutines drawing (or setting the seed) at once share out the same numbers without a data race. "
      "With Verbose set, everything printed goes, whole and in order, to the log file set last, or to standard output; without it nothing is written; a log file that cannot be created leaves the log where it was. "
      "A colour made from hue, saturation and value has the components the HSV definition gives, for every hue.",
      ["inputs", "histories", "schedules"], "all sequences of seeds, draws and log settings, all interleavings of drawers, all hues, saturations and values",
      "None of this is tested.",
      ["sys/rand.go", "sys/print.go", "common/color.go"],
      [("RefreshRandom, Seed, RandIntn, RandFloat64, RandNormFloat64, RandomComb", "sys/rand.go"), ("SetLogFile, LogFile, Printf, Println", "sys/print.go"), ("hsv2rgb, RandTone, RandColorScale, DrawColor", "common/color.go")],
      [("seed, Random", "the generator", "sys/rand.go"), ("fout", "the log", "sys/print.go")], ["RefreshRandom", "Seed", "RandIntn", "RandFloat64", "RandNormFloat64", "RandomComb", "SetLogFile", "Printf", "Println", "RandColor", "RandColorScale"],
      note="TLC enumerates all short sequences of seeds, draws and log operations and all colours of a grid of hues, saturations and values (exact integer arithmetic); each is replayed, with random longer histories and goroutines under the race detector. No particular generator is required."),
    P("C29", "Classification counts and image completions are what the network says",
      "A classification run trains once on the training share, with the class among the variables, and reports how many of the other rows get their own class as the most probable one, and how many rows there were; a batch reports the sums over its iterations. "
      "Completing images learns one network per image from the images of the other classes, at most as many at once as asked for, and writes one picture per image and orientation, in which the half of that orientation is as given and the other is a most probable completion given it; nothing is lost when images are fewer or more than the places, and the run ends, free of data races.",
      ["inputs", "schedules", "configurations"], "all datasets, shares, learners, image sizes and degrees of parallelism",
      "The package has no tests.",
      ["app/image.go"],
      [("ImgClassify, ImgBatchClassify", "app/image.go"), ("ImgCompletion, ImgTest, ImgTestParallel", "app/image.go")],
      [("nprocs, nrunning", "the job pool", "app/image.go")], ["ImgClassify", "ImgBatchClassify", "ImgCompletion", "ImgTest", "ImgTestParallel"],
      note="TLC proves for the job pool (4 images and 2 places in the quick tier, 6 and 3 in the thorough one) that no more than the bound run, that each image is done once and that it ends. Recorded runs of the real applications, with learners supplied by the driver whose networks are known exactly, are held to the specification, under the race detector. Ties and rows that are impossible under the network may count either way; of ImgTest and ImgTestParallel the pictures' names and given halves are checked."),
    P("C30", "The command-line program does what its mode and arguments say",
      "Run in a project directory, the program with -mode data turns a dataset's class folders of images into its compiled/all.data (every image once, with its class); with -mode class it reports, for each of the asked-for iterations, counts of a split of the compiled rows in the asked-for share, and at the end their sums; with -mode cmpl, the default, it writes one picture per compiled image and orientation, of the given size, whose given half is as in the image and whose other pixels are in range. "
      "Each run changes nothing else: a training share outside (0, 1), fewer than one iteration or an unknown mode change nothing, and a dataset that is not there makes the run fail and leaves everything as it was. Whatever the runs before, and for every number of concurrent jobs, clustering and verbosity, a run ends and is free of data races.",
      ["inputs", "histories", "configurations", "schedules"], "all histories of runs in a project directory, with all arguments",
      "The program has no tests.",
      ["main.go", "app/image.go"],
      [("main, convertData", "main.go"), ("ImgBatchClassify, ImgCompletion", "app/image.go")],
      [("data/<dataset>/compiled/all.data, cmpl_*.pgm", "the project directory", "main.go")], ["main"],
      note="TLC enumerates every history of two runs (three in the thorough tier) over the modes, datasets (images only, compiled only, absent) and argument classes; all are executed with the real program, built with the race detector, in scratch directories, with the remaining flags at random, and longer random histories besides. After each run the whole directory is compared with the specification's state. That the completions are the most probable ones is C29's concern; exit statuses other than of absent datasets are not constrained."),
]
