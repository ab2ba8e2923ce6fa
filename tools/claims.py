c("C01", "model_checking", "explicit-state exploration of store states and command histories on the real implementation",
  "Breadth-first search over command histories plus all store configurations of a bounded universe of versions, patches and places; every install is executed on the real code.")
c("C02", "model_checking", "exhaustive enumeration of damage patterns over store states on the real implementation",
  "Every store distribution of a bounded universe x every damage pattern of the alphabet, executed on the real code.")
c("C03", "model_checking", "exhaustive enumeration of weighted patch graphs against a shortest-path model",
  "Every patch graph over 3-4 versions with sizes from a bounded set; reads on the remote observed and compared with an independent model of the cheapest route.")
c("C04", "exploration", "bounded-exhaustive enumeration of build pairs on the real implementation",
  "All pairs of short bit strings and of structural shapes at block boundaries, in every place and way of storing.")
c("C05", "fault_enumeration", "exhaustive crash-point and torn-write enumeration on the real implementation",
  "Every operation of every scenario is a crash point; scenarios are a fixed catalogue of 50 command/store configurations.")
c("C06", "fault_enumeration", "exhaustive crash-point and I/O-fault enumeration on the real implementation",
  "Every operation of every install scenario, killed or failing; `current` inspected after each.")
c("C07", "fault_enumeration", "exhaustive crash-point enumeration followed by re-execution of the command",
  "Every crash point of every scenario, then the same command again; end state compared with the undisturbed run.")
c("C08", "fault_enumeration", "exhaustive I/O-fault enumeration on the real implementation",
  "Every operation of every scenario x every applicable error.")
c("C10", "exploration", "bounded-exhaustive enumeration of store contents, sizes and fault positions on the real implementation",
  "All bounded distributions of artefacts over both stores, artefact counts up to several batches of concurrent uploads, every failing upload position.")
c("C11", "model_checking", "explicit-state exploration of command histories with a file-system operation monitor",
  "Breadth-first search over command histories; every mutating operation and every state change is checked against the ownership rules.")
c("C12", "exploration", "bounded-exhaustive enumeration of version strings and file names on the real parsers and commands",
  "All strings up to a length over an alphabet of significant characters and tokens; commands on a smaller set.")
c("C13", "exploration", "bounded-exhaustive enumeration of hostile strings with a file-system operation monitor",
  "All combinations of commands and hostile strings; the interposed file-system layer records (and refuses) every mutation outside.")
c("C14", "exploration", "bounded-exhaustive enumeration of directory trees, round trip through the real packaging",
  "All trees up to a size over an alphabet of names, contents and modes, name lengths around every header limit.")
c("C15", "exploration", "exhaustive enumeration of environments (listing order, clock, place, owner) per tree; bytes compared",
  "All permutations of directory listing order of small trees and every environment change of the alphabet.")
c("C16", "exploration", "bounded-exhaustive enumeration of tag sets against an executable model",
  "All sets and orders of tags up to size 3-4 over an alphabet of tags; the selection compared with an independent reference model.")
c("C17", "exploration", "bounded-exhaustive enumeration of repositories and stores, the command executed against a reference model",
  "All bounded distributions of tags, builds and patches; git repositories are generated.")
c("C19", "model_checking", "explicit-state lock-step exploration: S3 and directory remotes driven through the same histories",
  "Breadth-first search over command histories executed in parallel on four remotes; states compared after every command.")
c("C09", "model_checking", "stateless model checking of process interleavings on the real implementation (preemption bounding)",
  "Every schedule with up to 2 (thorough 3) preemptions of two real processes over 24 scenarios x 2 kinds of remote; the scheduler owns every operation on the shared stores.")
c("C18", "fault_enumeration", "exhaustive enumeration of deviations of the S3 service on the real implementation",
  "Every request of every scenario x every deviation of a stand-in S3 service (bodies cut anywhere, altered, extended, checksums, headers, status codes, broken connections); a correct client is the oracle.")
c("C20", "model_checking", "explicit-state search over (stores, index state), the open index compared with a newly opened one in every state",
  "Breadth-first search; states are recognised by the stores' contents and everything the index knows; every transition executed on the real index by replaying its history.")
c("C21", "model_checking", "exhaustive enumeration of inputs, stores and options on the real implementation, compared with the specified result",
  "Every combination of a bounded alphabet of inputs, versions, store states and options, and every failing read of the input; stores compared file by file with the specified outcome.")
c("C22", "model_checking", "exhaustive enumeration of operation sequences, crash points and I/O faults against a model of the visible files",
  "All operation sequences up to a depth on two partial files, every crash point and fault of the shorter ones; the real type is driven and compared with the model after every operation.")
c("C23", "model_checking", "exhaustive enumeration of settings and their mixtures over a command history on the real implementation",
  "Every value of the alphabet and every triple of a smaller one; after every command all artefacts in both stores are decompressed or applied and compared.")
c("C24", "model_checking", "stateless model checking of the interleavings of a command with changes of its input on the real implementation",
  "Every change of the menu, of every file, before every operation of the command (thorough: also pairs); the controlled scheduler owns every file-system operation of the command.")
