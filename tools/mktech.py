import json
T={}
def t(i,a,b,l=None): T[i]=[a,b]+([l] if l else [])
base="Held on the executions counted in the evidence, not proved beyond them. Trusts the reference model of the harness (a plain ordered tree, written apart from the library)."
t("P01","runtime oracle: generated trees written in random layouts, parsed, compared with the tree they were written from","Metamorphic and reference comparison on seed-determined documents of all layouts and sizes. "+base)
t("P02","runtime oracle: same bytes delivered by hostile readers and at shifted offsets, results compared","Differential over delivery schedules (chunk sizes, empty reads, data with EOF) and offsets around buffer boundaries. "+base)
t("P03","runtime oracle: text of generated graphs read back and compared","Round trip on seed-determined graphs, including hostile text. "+base)
t("P04","runtime oracle: independent encoder and strict decoder of the published grammar compared with the library","Round trip, byte-for-byte conformance to the grammar, and decoding of independently written streams. "+base)
t("P05","runtime monitoring under hostile inputs: panic, CPU, allocation and stack watchdogs around parse, evaluate, process, print","Crash, hang and memory monitors on mutated and generated inputs of every input language; limits are far above what the current code needs. A hang is only reported if it happens again alone.")
t("P06","runtime monitoring under corrupted streams: panic, CPU and allocation monitors, and prefix comparison at every truncation","Every truncation of small streams, and mutations of them; complete nodes compared with an independent decoder. "+base)
t("P07","runtime trace oracle: recorded histories of log operations checked against a list of records","Histories of appends, reads, syncs and reopens of file and memory logs. "+base)
t("P08","fault injection: logs cut at every byte, reads checked against the records appended; system calls of an appending process recorded","Cuts at every byte of small logs and at sampled bytes of big ones; the write/fsync order of an autosync append is observed with strace where it is allowed.")
t("P09","runtime oracle: lookups compared with a step-by-step walk of a reference tree","Paths built from existing and missing elements of generated graphs. "+base)
t("P10","runtime oracle: assignments on a graph compared with the same assignments on a reference tree","After every assignment the whole graph is compared, so that nodes off the path are checked too. "+base)
t("P11","model-based runtime monitoring: random operation sequences on a graph and on a reference tree, compared after every step","Sequences of editing operations, every state compared. "+base)
t("P12","runtime oracle: pointer-identity and structural monitors on clones, mutation of one side, equality compared with structural comparison","Node sharing is decided by the identity of nodes and slices, equality by an independent comparison. "+base)
t("P13","runtime oracle: expressions written from a syntax tree, evaluated by the library and by a reference evaluator","Random typed expressions in random notation and in all the places where expressions occur. "+base)
t("P14","runtime oracle: templates written from a syntax tree, processed by the library and by a reference interpreter","Random templates with random contexts. "+base)
t("P15","runtime trace oracle: recording functions and methods in the context, recorded calls compared with the calls prescribed","Calls, argument values and order are recorded at the callee. "+base)
t("P16","runtime invariant monitoring: deep snapshots before and after reading operations, repeated results compared","Snapshots include the identity of nodes; reading operations are repeated and interleaved. "+base)
t("P17","Go race detector under concurrent stress, results compared with sequential ones","Race detector plus result comparison over randomly perturbed schedules. A race is reported when both accesses occur in the run, whatever the actual interleaving.")
t("P18","runtime oracle: accessors compared with an independent conversion table over generated values","All accessors on values of all scalar types and numeric, boolean and other text. "+base)
t("P19","runtime monitoring: every reading method, by reflection and by table, on missing, nil and empty nodes; panics and results monitored","All exported methods in all missing-node states, chained. "+base)
t("P20","runtime oracle: typed parsing of generated documents compared with the types of the words they were written from","Typed words at and around every numeric limit. "+base)
t("P21","runtime oracle: JSON documents written from generated values, the graph compared with them; repeated imports compared","Determinism is checked by repeating the import. "+base)
t("P22","runtime oracle: exported JSON checked by an independent parser and compared with the graph","Syntax by encoding/json, contents and order by a token comparison. "+base)
t("P23","runtime oracle: XML documents written from generated trees, the graph compared with them","Random documents with comments, directives, CDATA, entities and accents. "+base)
t("P24","runtime oracle: schema checks compared with an independent conformance predicate","Conforming graphs, graphs with one deviation, and arbitrary pairs. "+base)
t("P25","runtime oracle: sorted lists checked for order and conservation by node identity","Node identity shows that each node is there exactly once with its subtree untouched. "+base)
t("P26","runtime trace oracle over concurrent remote calls with unique requests: each answer matched with its request, executions counted","Unique request ids make every answer attributable to a request; handler executions are recorded at the handler. Race detector on.")
t("P27","fault injection on loopback connections (fragmenting, cutting, delaying proxy; bad peers), trace oracle on unique ids","Faults are placed at chosen bytes of the messages; the oracle is the identity of the answers. Race detector on.")
t("P28","model-based runtime monitoring: lexer operations compared with a cursor over the bytes","Random operation sequences over hostile readers. "+base)
t("P29","runtime oracle: event sequences compared with the tree a reference construction gives","Random event sequences, including levels that skip parents. "+base)
t("P30","runtime oracle: HTML lines parsed and compared with a depth-first listing of the graph","Random graphs, bases and depths. "+base)
t("P31","runtime oracle: tool processes run on generated documents, output compared with that of the library calls","The tools are built from the working tree and run as processes with files and slow pipes.")
t("P32","runtime oracle: paths with special elements and computed names compared with a step-by-step walk of a reference tree","Paths built from existing and missing elements of generated graphs. "+base)
t("P33","runtime oracle: the nodes found compared, by identity, with those that Go's regexp matches","Expressions made from the contents, at random, and invalid ones. "+base)
t("P34","runtime resource monitoring: open files, goroutines and live heap objects counted before and after histories with faults","Leaks are decided by counts once the process is at rest; time limits are only considered exceeded long after they are due.")
import os
json.dump(T,open(os.path.dirname(os.path.abspath(__file__))+'/techniques.json','w'),indent=1)
