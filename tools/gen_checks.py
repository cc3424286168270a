#!/usr/bin/env python3
"""The table of checks: technique and level note per property (source of checks.json)."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
enum = "bounded exhaustive enumeration of operation configurations on the real code against a reference model"
hist = "explicit-state exploration of a reference model with every transition replayed on the real code"
T = {}
def c(i, technique, note):
    T[i] = {"technique": technique, "note": note}
c("C01", hist,
  "Every history to depth 4 (5) of 24 kinds of steps (creating, copying, computing, in-place, resetting, reshaping, aliasing, replacing, graphs held, training, dropping) over two size classes, all live tensors compared exactly on a counting backend with guarded memory; every release and reallocation order around class borders. Aliases are not written through.")
c("C02", "exhaustive exploration of request/release histories on the real pool against a counting model",
  "Every history of requests and releases to depth 8-11 over four sets of sizes, every size to 2^14 (2^20) and around every power of two to 2^31, every device function, operation, backward pass and optimizer repeated on a counting backend. Assumes the backend hands out distinct buffers.")
c("C03", "stateless model checking of the real code under a controlled scheduler: depth-first over all schedules up to a preemption bound, with happens-before checking of buffer accesses",
  "Every pair of histories of up to 3 (4) requests/releases in two size classes from four pool states, triples, failing backend allocations, every pair of 22 thread programs (tensors, graphs, backward passes, training, loading, aliases, random fills, rejected calls, tensors passed between threads) and chosen triples; 2-4 preemptions, unlimited for the smallest. Results compared with each thread alone, books with the backend. Sequentially consistent atomics; kernels uninterrupted.")
c("C04", "exhaustive fault enumeration at every allocation and kernel call on the real code, alone and in pairs",
  "Every allocation and kernel call of every device function, operation, graph evaluation, backward pass, parameter, loading and optimizer run fails once (before, after, after scribbling), and pairs of failures in successive attempts; bystanders, operands, repeated results and storage compared. The panic is caught before the device is used again.")
c("C05", enum, "Every operation with every operand-shape tuple and argument of a bounded domain, eager, graph and operator form; accept/reject, result shape and untouched operands compared with the model's judgement.")
c("C06", hist, "Every construction over a bounded set of dimension lists and every resize sequence to a depth, boundary values of 32-bit sizes, in a build with and one without debug assertions and overflow checks.")
c("C07", enum, "All element-wise operations and forms over all small shapes and batch combinations, results in storage filled with NaN, a grid of finite values for rounding; compared in double precision.")
c("C08", enum, "All shapes to a volume, all axes (also beyond the rank), all value orderings (permutations and ties) of short axis lines; long axes for blocking. Compared with the definition.")
c("C09", enum, "All matrix sizes to a bound incl. around block sizes, all batch pairings, all mask offsets, all axis permutations of kernels; exact integer arithmetic.")
c("C10", enum, "All shapes to a volume, all axes, ranges, id lists to a length, all input counts and batch mixes; exact comparison.")
c("C11", enum, "All element-wise operators, shapes and batch combinations with basis and dense upstream gradients against dual-number differentiation; gradient destinations pre-filled.")
c("C12", enum, "All shapes, axes and batch combinations with basis and dense upstream gradients against dual-number differentiation; ties for max/min.")
c("C13", enum, "All shapes, axes, ranges, ids, batch combinations with distinct integer upstream gradients; exact routing compared.")
c("C14", "explicit-state exploration of all small graphs and evaluation histories on the real code against a model of which operators have run",
  "Every graph of up to 4 probe operators (2 operands, 2 outputs) with every history of up to 3 requests placed at every point of the construction; regular graphs of up to 20 levels; every program of 2 (3) real operations compared bitwise with eager evaluation.")
c("C15", "explicit-state exploration of all small graphs and backward histories on the real code against exact chain-rule gradients",
  "Every graph of up to 4 probe operators with every history of up to 3 requests holding a backward; probes check what they are given; regular deeper graphs with every pair of roots; every program of 2 (3) real operations against dual numbers from every root and pair of roots.")
c("C16", "exhaustive differential exploration: every operation on a fresh device against every preceding operation and storage pattern, bitwise",
  "Every device function, operation, training run and two-step graph, alone, repeated, after each of 8 storage patterns, after every other item (ordered pairs) and in tours of all items. Random fills excepted; NaN payloads ignored.")
c("C17", hist,
  "Every history to depth 4 (5) over 13-19 actions for 3 optimizers, 2 settings and 3 parameter sets, compared after each with the update rules in double precision; trainings of up to 400 steps. Parameters are configured before their first update.")
c("C18", "exhaustive enumeration of save/load cycles and checkpoint positions on the real code, bitwise",
  "All shapes of a range, value patterns over all exponents, four kinds of statistics, all model layouts to a size, 5 formats and all pairs of formats; every set of up to 2 (all) checkpoints of a 5 (8) step training, also between backward and update, per optimizer and setting; every truncation, missing field and wrong count. Values finite; tensors saved while on a device.")
c("C19", "exhaustive enumeration of generated struct definitions through the real derive macro against the definition",
  "Every struct of up to 2 (3) fields over 15 (7) field kinds with seven ways of declaring generics, each built with every choice of vector lengths; parameter lists compared by address. The device lifetime is the first one.")
c("C20", "exhaustive enumeration of the answers of a scripted random source on the real code",
  "Every tuple of up to 3 (4) answers over an alphabet of deciding words, per distribution, argument and entry point; every shape; sweeps of the word range (2^16, 2^23) and of all ziggurat layers; invalid arguments. Built against a copy of the rand crate whose generators answer from the script.")
c("C21", enum, "All dropout masks of small tensors through a device whose Bernoulli kernel is scripted; all small shapes and batches for the normalisations; values and gradients in double precision.")
c("C22", enum, "All shapes/axes and all tuples of extreme and ordinary values along short axis lines; normalisation, stability, definition and agreement of dense, sparse, eager and graph forms.")
c("C23", enum, "All target/operand shape pairs and all update sequences to a depth against an element-wise model, with bystanders and rejected calls.")
c("C24", enum, "Every device function, operation and in-place form with every operand position replaced by a tensor of another device; nothing may change; exact independent copies for all small shapes.")
c("C25", hist, "All histories of three tensor slots on two devices to depth 4 (5) and every transition of every reachable model state to depth 6 (9), replayed on the implementation over a counting backend with guarded memory. Aliases are used as the borrow checker allows.")
c("C26", "exhaustive enumeration of calls and registration histories on a recording backend against a table of definitions",
  "Every device function in every configuration and every operation, eager and in a graph, on a backend that records kernel, operands, arguments and result; every registration history to depth 4 (5) over two names in four namespaces; every kernel of every function and every operation removed in turn.")
c("C27", enum, "Every device function with every tuple of operand, result, gradient and destination shapes from an alphabet of 7-12 (9-17) shapes per kind, all axes, ranges and id lists of a domain; accept/reject compared with the definition, every tensor compared bitwise, in builds with and without debug assertions.")
c("C28", hist, "Every history of 3 (4) actions over 11 (14) (losses, one or two backward calls, updates, evaluation, saving and loading on the same or another device, resets, settings) for thirteen architectures x three optimizers x two settings, and trainings of up to 60 steps with such actions in between, compared after every action with reverse accumulation and the published update rules in double precision.")
c("C29", hist, "Every device function and operation (eager, in a graph, failing at every call of the backend, with operands that do not fit), every program of 2 (3) operations under four orders of dropping its nodes, large programs, trainings with saving and loading, and life cycle calls, each repeated 16 to 3000 times on one device and over whole lives of devices, counting heap blocks, bytes and backend buffers; every node of every program held alone.")
c("C30", hist, "Every element of every operand of every operation, index search, update in place and optimizer step replaced by each of nine special values, and every element of every leaf of every program of 2 (3) operations, of large programs and of thirteen architectures replaced by NaN and infinity; every value (eager and graph) and gradient that does not depend on it, computed symbolically from the reference semantics, has to stay, and what depends on a NaN by arithmetic has to be NaN.")
json.dump(T, open(os.path.join(V, "checks.json"), "w"), indent=1)
