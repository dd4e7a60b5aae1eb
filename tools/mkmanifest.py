#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table of claimed checks."""
import json
BIT = "exhaustive enumeration of a bounded input/history space executed on the real code, judged by an independent specification (explicit-state, stateless model checking)"
DIFF = "bounded exhaustive enumeration of models; the importer's real output is executed and compared with an independent reference interpreter (explicit-state exploration on the implementation)"
GEN = "bounded exhaustive enumeration of models; the really generated Rust source is compiled against a reference tensor library and executed, compared with an independent reference interpreter"
CLAIMED = {
 "C06": (BIT, "All location strings over a path-fragment alphabet up to length 3 (19 fragments) and 4-6 (8 fragments), a fixed tree with links in/out/chained/prefix-sharing, nine ways to name the model file; every import runs the real parse_file on a scratch tree."),
 "C07": (BIT, "All (file size, offset, length, element type, element count) tuples around every boundary, numeric spellings, entry orders, shared-file layouts and file faults, on the real importer built with and without memory mapping."),
 "C01": (DIFF, "0.74M (quick) to several million multi-node programs: every sequence of steps of seven themes (identity elements of every broadcast relation, idempotent chains, mergeable pairs, constants incl. overflow, shape arithmetic, permute-reshape chains, attention blocks) plus the operator families; each is imported with and without simplification, both graphs are interpreted and every output compared, and an import refused only with simplification is a violation."),
  "C02": (DIFF, "58,683 single-operator models over every supported operator family: attribute forms, defaults, opset forms, ranks, dtypes, constant/runtime/absent operands, two input valuations each; the imported graph is interpreted and compared with an independent ONNX reference, refusals are only accepted for forms listed as unsupported."),
 "C04": (DIFF, "The same models with simplification off and on: every rank, element type, scalar/shape kind and static dimension the import states for any value is compared with the value the reference computes for it, for every valuation."),
 "C05": (BIT, "116,428 models: every element type x bit-pattern alphabet (all patterns up to 16 bits, all 1- and 2-bit patterns above) x shape x encoding (raw, packed, unpacked, split) x field order x carrier (initializer, listed initializer, Constant attribute forms, branch bodies, external file), look-alike pairs and storage orders; the bytes reaching the consumer are compared one by one."),
 "C08": (BIT, "61,839 models (859,552 thorough) - every operator family, wiring, program and control-flow structure, every element type at every alignment in every place a tensor can be - imported from bytes, readers that give one byte at a time or are interrupted, a memory-mapped and a buffered file, and twice: equal graphs and data; external tensors in nine places are refused without a directory and equal to embedded ones with one; readers that break at every byte."),
 "C10": (BIT, "3.1 million (139 million thorough) single faults: every fault of the alphabet (truncation at every byte, every opset, every misordering, unknown operators and domains, undefined, omitted, own, later and extra operands, repeated, shadowing, omitted and renamed definitions, attribute missing/of another kind/unknown, tensor types and dimensions, input types, functions, sparse data) at every position of some 4,400 (190,000) base models; each must be refused or mean what the reference says."),
 "C09": (DIFF, "All one-dimensional kernel/stride/dilation/pads/mode/ceil combinations up to the bound, all pads vectors over {0,1,2} in two and three dimensions for several kernels, refusal of every negative-pad position and near-miss mode string, and the padding helpers on every vector over a boundary alphabet."),
 "C24": (BIT, "Every expression/item form nested two deep (three in the thorough tier), every string up to three characters over an alphabet of layout-sensitive characters in each literal kind, every line length around the wrapping column, and every registration sequence up to five (six) imports, on the real formatter and import collector compiled from /repo; tokens compared one by one modulo documented layout (trailing commas, redundant braces)."),
 "C25": (BIT, "Every sequence of builder calls up to two over the full call alphabet (11 calls x names x ranks/shapes/constants x element types) and up to four (six in the thorough tier) over a reduced one, with the configuration set at every position, twice or never, on structs of every form the derive macro takes and on real node types; plus the displayed form of every node of every imported graph of the operator families, configuration compared with its debug form."),
 "C03": (DIFF, "The operator families, the multi-node programs, every wiring of up to four nodes with every head and output selection, and nested control-flow models: each imported graph is checked to be well formed in every scope (each value defined once and before its use, constants with data, unique non-empty names, subgraph references resolvable) with the interface the model declares, with and without simplification."),
 "C15": (GEN, "29,305 element-wise models (18,405 in the quick tier): every operator x element type x broadcast pair x runtime/constant operand kind x attribute form; every generated program is compiled and executed on two inputs each."),
 "C16": (GEN, "2,146 models of indexing, slicing, gathering, scattering, reshaping, padding, splitting and stacking over boundary operands, static, dynamic and constant."),
 "C17": (GEN, "2,739 models of reductions, arg-reductions, TopK, cumulative sums and softmax-like normalisations over axes, keepdims, opset forms and element types."),
 "C18": (GEN, "11,791 models of convolution, transposed and deformable convolution, pooling, resizing and their attribute products."),
 "C19": (GEN, "971 models of matrix products, Gemm, Linear fusion, quantised products, normalisation layers, attention and Einsum-like forms."),
 "C20": (GEN, "529 models of LSTM, GRU and RNN over direction, layout, bias, initial states, outputs, clipping and activations."),
  "C11": (GEN, "1.58 million models: every assignment of one or two names of a 110-name adversarial alphabet to the slots of ten graph templates (inputs, initializers, listed initializers, node results, layers, branches, captured initializers, loops, scans, nesting), imported with and without simplification, interpreted and checked for identifiers; generated, compiled and executed programs for every single name plus every variable that generated code binds by itself, pairs of the most collision-prone names, and every operator's inputs named like the variables of its own code."),
  "C12": ("explicit exploration of the implementation under a controlled source of nondeterminism: every hash iteration of the real code is an explored choice (stateless model checking with a deviation bound)", "Copies of the crates whose HashMap/HashSet hand out elements in an order the explorer picks (same source text otherwise, bound to the real crates by comparing their output files in three processes with other seeds, directories and processing orders): for 6,538 models, each generated and imported with and without simplification, every iteration over two or more elements is met in every order (up to 3 elements; exchanges, rotations, reverse above), one deviation per execution (in the thorough tier two, for executions of up to 12 iterations); all executions must produce the same graph, source and weights."),
  "C13": (GEN, "Every wiring of each of some 120 operator idioms in every role (before, after, fanned out, output of the graph, passed on, dead) with values of every kind, simplification on and off: the program must compile and mean what the model does."),
  "C14": (GEN, "9,170 models with weights in every arrangement (shared, repeated, bare, in branches and bodies, equal node names, half and double elements): names, shapes, types and bytes stored in the weights file against the fields the generated module declares, loads and uses."),
  "C21": (GEN, "Every If/Loop/Scan structure up to the bound (captured values, states, pass-through and swapped states, conditions, scan inputs/outputs with axes and directions, nesting) plus every operator model of the families placed in branches, loop and scan bodies."),
  "C22": (GEN, "Every chain of up to two (thorough: three) idioms over shapes, rank-0 values and index vectors, with static and dynamic input shapes."),
}
NA_PENDING = "No check is registered for this property at this point of the work; see DESIGN.md."
NA = {}
props = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
m = dict(version=1, setup_cmd="./run.sh setup", hooks=dict(guard="none", enable="no hooks: the checks build /repo's crates as they are", source_commits=[]),
  checks=[dict(property=p, quick_cmd=f"./run.sh {p} quick", thorough_cmd=f"./run.sh {p} thorough", technique=CLAIMED[p][0], level="model_checking", level_note=CLAIMED[p][1]) for p in props if p in CLAIMED],
  not_applicable=[dict(property=p, reason=NA.get(p, NA_PENDING)) for p in props if p not in CLAIMED])
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
