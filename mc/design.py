"""Text of DESIGN.md per property: what the oracle is, and why enumerating reaches what tests cannot."""
TEXT = {
"C01": "Every iteration of every training run is a state (seen through the public update step parameter); invariant: W, H (H only for least squares, W free for weighted semi) finite and non-negative, shapes kept. Found the NaN of ws-nmf with negative data.",
"C02": "Same traversal; the float64 loss of consecutive states may not rise beyond one float32 rounding.",
"C03": "All call sequences on one object; after each call Q(true), Q(robust), the residuals, WH, the recorded history and metadata are recomputed in float64 from the final matrices. Stale values of an earlier call are what this reaches.",
"C04": "The loss sequence is scripted (public `update_step` that installs a matrix with the wanted loss), so the stop rule itself is enumerated: all sequences over a small loss alphabet against a direct restatement of the criterion.",
"C05": "Sequences of train calls with every hold/delay; oracle drives the same update one iteration at a time.",
"C06": "All interleavings of the calls of two or three models; each must equal the model trained alone.",
"C07": "All small matrices over an alphabet that straddles the robust cut-off; reference loss in float64; arguments compared byte for byte afterwards.",
"C08": "Every combination of given/partial/absent start matrices on fresh, initialized and trained models; invalid input must be refused without changing a valid model.",
"C09": "Save/load round trips of every persistent object at every stage, and crash points: every truncation of the saved file must load as 'nothing' instead of a wrong or half object; text files parsed and compared with the object.",
"C10": "Breadth-first search over category states; each transition calls the real handler; compared with a dictionary model.",
"C11": "All patterns of missing/zero/negative cells through dataframes and files.",
"C12": "All columns over the alphabet, packed into datasets in several orders; metrics by definition.",
"C13": "All patterns of missing cells per strategy.",
"C14": "All assignments of samples to locations; all merge lists.",
"C15": "All answers of the random generator (depth-first over the choice tree).",
"C16": "All completion orders; tables recomputed from the stored models; mapping compared with exhaustive correlation argmax.",
"C17": "Each displaced value is checked against the loss along that coordinate, which is a parabola known in closed form.",
"C18": "All pairs of completion orders of the two searches against the sequential result.",
"C19": "All completion orders of both stages; aggregation recomputed from every run's displacement.",
"C20": "Breadth-first search over sequences of registrations against a reference registry.",
"C21": "Every element x constraint type x value; matrices entering each update are captured and compared with the specification.",
"C22": "All pairs (and families of triples) of elements and coefficients; captured matrices must satisfy the equations or stay within the dQ limit.",
"C23": "All settings, orders, fault positions and slow positions; each model compared with one trained alone with the same arguments and seed.",
"C24": "All factor-count assignments, masks and orders under a scripted generator; the table recomputed from models trained alone.",
"C25": "All permutations of the factors and all small matrices; best mapping by brute force over permutations.",
"C26": "Breadth-first over every history of additions of factors, models and batches; a reference catalog is stepped along and compared in every state, with all look-ups tried in the small states.",
"C27": "All configurations of the generator with zero spread (so that every value must be one of a few products) and all histories of updates; the identities between the simulated tables in every state; two simulators stepped together.",
"C28": "All perturbation settings x all completion orders of the task pool; each perturbed model compared with one trained directly on the reported multipliers; all relabellings of the factors for the mapping.",
"C29": "All small indices and matrices for the helper functions.",
"C30": "All small models; statistics recomputed by definition.",
"C31": "All series over a small alphabet; independent restatement of the published estimator and its invariances.",
"C32": "`rust/lib.rs` is compiled unchanged in every run against stand-ins of its crates (`rustshim/`: matrices with plain loops, arrays with their strides, a C interface in place of pyo3) and installed under its own name, so that `SA`, `BatchSA` and resampled data run on it. Both implementations are stepped together from the same states: every 3x2 dataset over an alphabet, all layouts, hold/delay settings, convergence windows and sequences of trainings. Found that C-ordered data (any resampled, simulated or user-made array) was read column by column as if it were F-ordered, an H update with the defect of C01, and a convergence test one iteration early. Limits: the stand-ins follow the documented behaviour of the crates (e.g. `to_vec` in memory order, `reshape` with NPY_ANYORDER), which I could not compare with the originals here; a change of `lib.rs` that uses more of a crate than the stand-in offers gives no answer (exit 2).",
"C33": "Figures and log messages are captured (`lib.shown`, `lib.logged`); for every finished estimation, factor and dQ level each trace, table cell and message is compared with statistics recomputed from the stored runs by definition.",
"C34": "All constraint sets x datasets x factors; every trace, table cell, highlight and label recomputed from the base and the constrained matrices.",
"C35": "All datasets x plotting limits x figures x arguments; every trace recomputed from the dataframes the handler was given.",
"C36": "All models x figures x arguments, batches with every pattern of failed models; every trace recomputed from the matrices and the samples the model was trained on.",
"C37": "All permutations of the factors and all pairs of mappings; every trace, title and agreement recomputed from the matrices of the pair of factors that the figure names; comparisons and searches are repeated so that a figure of an earlier one is seen.",
"C38": "Breadth-first over the commands of a project. A model of the project says which artefacts exist and what they were made from; after each command every file is compared with what the library computes and saves for those values, and in every state every analysis command is compared, figures and messages, with the library call it stands for.",
"C39": "Two objects of 17 kinds are played against each other, every interleaving of their calls, each in a forked process that before made only the inputs; the public content of both objects and what their calls return are compared with the object played alone in such a process.",
"C40": "The objects of C39 (without the simulator) and some with given start matrices are made from the same values stored in every representation; numbers, texts and results are compared with those from plain row ordered copies, and the arrays of the caller byte by byte before and after.",
"C41": "The objects of C40 are played in subprocesses, one per process setting, and their numbers, texts and results, and the text files of some with labels outside ASCII, compared with those of a process with hash seed 0."
}
