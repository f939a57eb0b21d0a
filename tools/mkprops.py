#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source for titles and statements)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    assert len(title)<=80,(id,len(title))
    assert statement.count('. ')<=2,(id,statement.count('. '))
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,
        "state":[{"name":a,"meaning":b,"where":c} for a,b,c in state],
        "mechanism":[{"name":a,"where":b} for a,b in mech],
        "observe_at":list(observe),"hook_needed":None}})

p("C01","Parallel execution never changes what a model computes",
 "For the same seed, settings and data, every training and query call produces the same model and the same answers whatever number of jobs is configured, however the worker threads are interleaved, and whatever number of workers the runtime really grants. While workers run, no two of them (nor a worker and the caller) touch the same memory without ordering when one of them writes it. A configured number of jobs is never exceeded.",
 ["schedules","configurations","inputs"],
 "every interleaving of the worker threads at memory-access granularity, every team size granted, every job count, tile size, counting type, estimator kind and data set",
 "the unit tests compare a handful of fixed inputs with n_jobs=1 on whatever schedule libgomp happened to produce; a race or a dependence on the partition shows only on particular interleavings and team sizes",
 ["lib/src/tsetlini_algo_classic.hpp","lib/src/tsetlini_algo_bitwise.hpp","lib/src/tsetlini.cpp"],
 [("parallel loop over clause outputs, each writing its own slot","lib/src/tsetlini_algo_classic.hpp, lib/src/tsetlini_algo_bitwise.hpp"),("n_jobs normalisation","lib/src/tsetlini_params.cpp")],
 [("clause outputs","one slot per clause output, written by workers","estimator state cache")],
 ["clone_state()","predict/decision_function/evaluate results"])

p("C02","Separate estimators do not affect one another",
 "Estimators owned by different caller threads give, under every interleaving of their training, query, copy, save, restore and destruction calls, exactly the results they give when each runs alone in a process. A clone, a copy built from a clone, a moved-to estimator and a restored model are fully independent of their origin: later training or destruction of one leaves the other unchanged. No memory is shared between them without ordering when one side writes it.",
 ["schedules","histories"],
 "every interleaving of calls on distinct estimators issued from several caller threads, at memory-access granularity, and every order of clone, move, retrain and destroy",
 "no existing test runs two estimators concurrently or mutates one after cloning it; hidden shared state (a static buffer, a shared generator, a shallow copy) is invisible in single-estimator tests",
 ["lib/src/tsetlini.cpp","lib/src/tsetlini_state.cpp","lib/src/estimator_state.hpp","lib/include/mt.hpp","lib/src/logger.hpp"],
 [("each estimator owns its state by value","lib/src/estimator_state.hpp"),("deep copy on clone and construction from state","lib/src/tsetlini.cpp")],
 [("estimator state","parameters, automata, weights, polarity, generators, scratch","lib/src/estimator_state.hpp")],
 ["clone_state()","query results"])

p("C03","A fitted model may be queried by many threads at once",
 "Read-only calls on one fitted model (predicting single samples and batches, decision values, evaluation, reading parameters, cloning, saving) issued concurrently by several threads return exactly what they return when issued one after another, under every interleaving and job count. They leave the model unchanged. No two of them touch the same memory without ordering when one writes it.",
 ["schedules","inputs"],
 "every interleaving of const calls on one shared model, at memory-access granularity",
 "all tests query from one thread; scratch memory shared by const calls corrupts answers only under particular interleavings",
 ["lib/src/tsetlini.cpp","lib/src/estimator_state.hpp","lib/src/tsetlini_algo_common.hpp","lib/src/tsetlini_state_json.cpp"],
 [("const query functions keep their scratch per call","lib/src/tsetlini.cpp")],
 [("scratch buffers","clause outputs and vote sums used while answering a query","lib/src/estimator_state_cache.hpp")],
 ["predict/decision_function/evaluate results","clone_state()"])

p("C04","A seed determines the run",
 "Two runs with the same random seed, settings and calls produce identical models, answers and saved documents, regardless of what the process did before, of the contents or addresses of freshly allocated memory, of other objects in the process and of the system's entropy source. When no seed is given, one is drawn once from the entropy source when the estimator is created, is reported by the estimator's parameters, and using it explicitly reproduces the run. The number of processors of the machine affects at most the reported number of jobs.",
 ["histories","configurations","fault_sequences"],
 "every prior process history, every allocator behaviour (dirty, reused, relocated memory), every entropy value, every processor count",
 "tests run each scenario once in a fresh process on zeroed pages; a read of uninitialised memory, a static generator or an address-dependent order goes unnoticed",
 ["lib/src/tsetlini_params.cpp","lib/src/tsetlini_state.cpp","lib/include/mt.hpp","lib/src/estimator_state_cache.cpp","lib/src/coin_tosser_exact.hpp","lib/src/coin_tosser.hpp"],
 [("generators re-seeded from random_state at initialisation","lib/src/tsetlini_state.cpp"),("seed materialised at parameter creation","lib/src/tsetlini_params.cpp")],
 [("random_state","seed kept among the parameters","lib/src/tsetlini_params.cpp")],
 ["read_params()","clone_state()","saved document"])

p("C05","Interrupted and resumed training equals uninterrupted training",
 "A model saved to its document form and restored, or handed over through a clone, at any call boundary continues exactly as the original would have: same answers, same further training, same later saved documents, and equal to the original state. Training for a number of epochs in one call leaves the same model as the same number of epochs split over any sequence of calls, with any number of crashes in between from which the process restarts with only the last durable document. Saving a model that has not been fitted and restoring it also gives back an equivalent model.",
 ["crash_points","histories","configurations"],
 "every position of a save, crash and restore in a training history, every split of the epochs, every estimator kind and configuration, including generator positions and extreme learned values",
 "tests save and restore one or two small models once and compare; they do not continue training from every point nor reach rare internal positions (generator wrap, boundary automata, large weights)",
 ["lib/src/tsetlini_state_json.cpp","lib/src/tsetlini.cpp","lib/src/estimator_state_cache.cpp","lib/include/mt.hpp"],
 [("serialisation of automata, weights, polarity, generators, parameters","lib/src/tsetlini_state_json.cpp"),("scratch rebuilt on restore","lib/src/tsetlini_state.cpp"),("training keeps no state besides the saved one","lib/src/tsetlini.cpp")],
 [("saved document","JSON text of the whole estimator state","lib/include/tsetlini_state_json.hpp")],
 ["saved document","clone_state()","query results"])

p("C06","A damaged saved model or configuration is refused, never obeyed blindly",
 "Restoring a saved model from a document that was truncated, lost, overwritten in part, mixed with another version, bit-flipped, or written by a different kind of estimator either reports an error and leaves the target model exactly as it was, or yields a well-formed model, its parameters within their documented ranges, on which every later call is well-behaved. Creating an estimator from a damaged configuration document likewise returns an error status or a usable estimator with parameters in their documented ranges, and does not throw. Neither ever reads or writes outside its own memory, crashes or hangs, then or in later calls.",
 ["fault_sequences","crash_points","inputs"],
 "every storage fault on the document (torn write, lost write, flipped bits, zeroed or swapped regions, old and new halves mixed, foreign document) at every position",
 "tests only restore documents the library just wrote; none restores a damaged one",
 ["lib/src/tsetlini_state_json.cpp","lib/src/tsetlini_params.cpp"],
 [("validation before the target is changed","lib/src/tsetlini_state_json.cpp")],
 [("saved document","JSON text of the whole estimator state","lib/include/tsetlini_state_json.hpp")],
 ["from_json_string outcome","target state after an error","later calls"])

p("C07","A rejected request changes nothing",
 "A call with unacceptable arguments (empty or ragged data, mismatching lengths or widths, values other than 0 and 1, labels or responses out of range, uncleared padding, querying an unfitted model) returns an error status naming its class and never crashes, and the model behaves from then on exactly as if the call had never been made. Acceptable calls are not rejected. This holds at every point of any history and for every call that takes data, evaluation included.",
 ["histories","inputs","fault_sequences"],
 "every malformed request, injected at every point of every history of calls",
 "tests check the returned code of single bad calls on fresh objects; they do not check that later behaviour is unaffected, nor all calls",
 ["lib/src/tsetlini.cpp"],
 [("input checks before any state is touched","lib/src/tsetlini.cpp")],
 [],
 ["status codes","clone_state() before and after","results of the remaining history"])

p("C08","Running out of memory never corrupts a model",
 "When an allocation fails inside any call, the call reports it by throwing the standard out-of-memory error (or completes), and the process neither crashes, hangs nor leaks. A query leaves the model unchanged, a failed restore leaves its target unchanged, a failed training call leaves a well-formed model that every later call handles normally, and a failed creation leaves nothing. Once memory is available again, a new fit gives exactly the model a fresh estimator would give.",
 ["fault_sequences","crash_points","histories"],
 "every position of a failing allocation (single or persistent) inside every call of every history",
 "no test makes an allocation fail",
 ["lib/src/tsetlini.cpp","lib/src/tsetlini_state.cpp","lib/src/ta_state.cpp","lib/src/estimator_state_cache.cpp","lib/src/tsetlini_state_json.cpp","lib/src/logger.hpp","lib/include/aligned_allocator.hpp"],
 [("state built aside and committed at once","lib/src/tsetlini.cpp"),("failed aligned allocation throws","lib/include/aligned_allocator.hpp")],
 [],
 ["exceptions","clone_state()","later calls","live allocations"])

p("C09","Logging only observes",
 "Turning verbosity on or off, or having the log stream fail, block short writes or be configured to throw, changes neither the model nor any answer nor any status, and never terminates the process. With verbosity off nothing is written. With verbosity on, a training call that succeeds reports each epoch once, in order.",
 ["fault_sequences","configurations","histories"],
 "every failure point of the log sink, with and without stream exceptions, every verbosity setting",
 "tests never make the log stream fail and do not compare verbose with quiet runs",
 ["lib/src/logger.hpp","lib/src/tsetlini.cpp","lib/src/tsetlini_state.cpp"],
 [("log statements guarded by verbosity, emitted from a temporary","lib/src/logger.hpp")],
 [],
 ["log sink contents","clone_state()"])

p("C10","A learned model is always well-formed",
 "After every call in any history, each automaton state of a fitted model lies in the configured range of states, each clause weight lies between 1 and the configured maximum (and weights exist exactly when weighting is on), and dimensions match the configured clauses and the features and labels of the training data. In the bitwise kinds the include mask agrees with the sign of every automaton and its padding is clear. Parameters other than the learned dimensions never change.",
 ["histories","schedules","inputs","fault_sequences"],
 "every history of training, rejected, failed, saved, restored and resumed calls over every configuration, including states placed at the boundaries",
 "tests check a few feedback blocks in isolation on fixed inputs; boundary combinations (one state per side, maximal weight, saturated automata, vector remainders) are reached only by long or special histories",
 ["lib/src/tsetlini_algo_classic.hpp","lib/src/tsetlini_algo_bitwise.hpp","lib/src/tsetlini_algo_common.hpp","lib/src/ta_state.cpp"],
 [("saturating automata updates and weight bounds","lib/src/tsetlini_algo_classic.hpp, lib/src/tsetlini_algo_bitwise.hpp")],
 [("automata matrix, include mask, weights","learned state","lib/src/ta_state.hpp")],
 ["clone_state()","read_params()"])

p("C11","Answers are exactly the votes of the learned clauses",
 "At every point of any history, the decision value of a label is the weighted vote of its positive minus its negative clauses that are non-empty and match the sample, limited to plus or minus the threshold; the predicted label is the first one with the highest value; a regressor's prediction is the weighted vote count limited to zero and the threshold. Batch answers equal single-sample answers, evaluation equals the fraction of correct predictions, and the classic and bitwise kinds give the same answers for the same learned state.",
 ["histories","inputs","schedules","configurations"],
 "every learned state reached in any history or restored from storage, every sample, tile size, feature count, counting type and schedule",
 "tests compare clause outputs for a few shapes; they do not check the answers against an independent evaluation of the learned clauses in states reached by training, restoring and failing",
 ["lib/src/tsetlini.cpp","lib/src/tsetlini_algo_common.hpp","lib/src/tsetlini_algo_classic.hpp","lib/src/tsetlini_algo_bitwise.hpp"],
 [("clause evaluation with pruning of empty clauses, vote sums","lib/src/tsetlini_algo_common.hpp, lib/src/tsetlini_algo_*.hpp")],
 [],
 ["predict/decision_function/evaluate results","clone_state()"])

p("C12","Every training step is a legal Tsetlin machine step",
 "Training on one sample changes automata and weights only as the published feedback rules permit for that sample, the clause outputs and the vote margins before the step: only the target label and at most one other label change, reinforcing feedback moves automata of matching clauses towards including true literals and away from false ones and those of other clauses away from inclusion, and suppressing feedback only raises excluded false literals of matching clauses by one. An automaton of a matching clause moves by at most one step per feedback, weights change by one and only on matching clauses, and clauses receive no feedback when the vote margin is already met. With boosting on, true literals of reinforced matching clauses are always raised.",
 ["histories","schedules","inputs","configurations"],
 "every model state reached or restored in any history, every sample, every outcome of the random draws, every schedule",
 "tests check isolated feedback functions on fixed vectors; they do not check whole steps from arbitrary states against the rules for all outcomes of the draws",
 ["lib/src/tsetlini.cpp","lib/src/tsetlini_algo_classic.hpp","lib/src/tsetlini_algo_bitwise.hpp","lib/src/tsetlini_algo_common.hpp"],
 [("Type I / Type II feedback","lib/src/tsetlini_algo_classic.hpp, lib/src/tsetlini_algo_bitwise.hpp"),("feedback selection by vote margin","lib/src/tsetlini_algo_common.hpp")],
 [],
 ["clone_state() before and after a one-sample step"])

p("C13","Fitting starts afresh",
 "Fitting an estimator gives exactly the model that a newly created estimator with the same parameters would get from the same call, whatever the object went through before: other fits with other widths or labels, partial fits, restores, failed or rejected calls, moves. A partial fit of an unfitted estimator equals a fit.",
 ["histories","fault_sequences","configurations"],
 "every prior history of the object",
 "tests fit fresh objects; left-overs of earlier use (weights, buffers, generator positions) show only when an object is reused",
 ["lib/src/tsetlini.cpp","lib/src/tsetlini_state.cpp","lib/src/ta_state.cpp","lib/src/estimator_state_cache.cpp"],
 [("state initialisation resets generators, automata, weights and scratch","lib/src/tsetlini_state.cpp, lib/src/ta_state.cpp")],
 [],
 ["clone_state()","answers"])

p("C14","Feedback is handed out at the documented rates",
 "Over the random draws, a classifier clause of the target label receives feedback with probability (T-v)/2T and one of the contrasting label with probability (T+v)/2T, v being that label's clamped vote, and the contrasting label is uniform over the other labels. Automata move against inclusion with probability 1/s and towards it with probability 1-1/s (1 with boosting), where the feedback rules ask for a random move. A regressor hands out feedback to each clause with a probability given by the configured loss of the relative error, with and without the normal approximation.",
 ["schedules","inputs","configurations"],
 "all seeds of the random generators, i.e. the distribution over seeded runs, for every state, margin and specificity",
 "tests fix one seed per case and compare single outcomes or check only the coin tosser; rates over many seeds from arbitrary states are not examined",
 ["lib/src/tsetlini_algo_common.hpp","lib/src/tsetlini_algo_classic.hpp","lib/src/tsetlini_algo_bitwise.hpp","lib/src/coin_tosser.hpp","lib/src/coin_tosser_exact.hpp","lib/src/box_muller_approx.cpp","lib/src/loss_fn.cpp"],
 [("feedback probabilities from vote margins","lib/src/tsetlini_algo_common.hpp"),("coin tossers","lib/src/coin_tosser*.hpp"),("loss functions","lib/src/loss_fn.cpp")],
 [],
 ["clone_state() before and after one-sample steps over many seeds"])

p("C15","Training makes progress, also across crashes",
 "On learnable data (parities, ordered responses, class prototypes with noise) training reaches high accuracy within a bounded number of epochs from every seed but a vanishing fraction, for all estimator kinds, also when the process crashes repeatedly and resumes from durable documents, and once faults have stopped. Every call returns: none blocks or loops for ever, whatever the job count, schedule or failing allocation.",
 ["schedules","crash_points","fault_sequences","configurations"],
 "every seed, schedule, crash placement and configuration in the documented useful range",
 "tests train one or two fixed seeds without interruption",
 ["lib/src/tsetlini.cpp","lib/src/tsetlini_algo_classic.hpp","lib/src/tsetlini_algo_bitwise.hpp","lib/src/tsetlini_algo_common.hpp"],
 [("online training loop","lib/src/tsetlini.cpp")],
 [],
 ["evaluate/predict accuracy after a bounded number of epochs"])

p("C16","Performance settings do not change the model",
 "The tile size used for evaluating clauses, the width of the counters (automatic or requested), the verbosity and the job count have no influence on learned values, answers or generator positions: models that differ only in these settings stay equal through any history of training, querying, saving and restoring.",
 ["configurations","histories","schedules"],
 "every combination of these settings with every feature count, data set and history",
 "tests fix one or two settings per case; remainders of tiles and the narrow counter types are exercised only for a few sizes",
 ["lib/src/tsetlini_algo_classic.hpp","lib/src/tsetlini_algo_bitwise.hpp","lib/src/ta_state.cpp","lib/src/tsetlini_state.cpp"],
 [("tiled early-exit clause evaluation","lib/src/tsetlini_algo_classic.hpp, lib/src/tsetlini_algo_bitwise.hpp"),("counter width selection","lib/src/tsetlini_state.cpp")],
 [],
 ["clone_state()","answers"])

p("C19","An epoch presents every sample exactly once, in fresh random order",
 "In every epoch of a training call, each sample is presented to the learner exactly once, together with its own label or response (and, for classifiers, contrasted with one label other than its own); none is left out, repeated or paired with another sample's answer, whatever the number of samples, epochs, calls the epochs are divided into, and handovers of the model in between. The order of presentation is drawn anew for each epoch from the model's generator, every order being equally likely.",
 ["configurations","inputs","histories"],
 "every data set, number of samples and epochs, and every history before and between the calls",
 "tests compare accuracies after training or check the training of single clauses; an epoch that drops, repeats or mispairs samples, or keeps one order, passes them",
 ["lib/src/tsetlini.cpp"],
 [("epoch loops, order of samples, contrasting labels","lib/src/tsetlini.cpp (fit_classifier_online_impl, fit_regressor_online_impl, generate_opposite_y)")],
 [("generators","igen orders the samples and draws contrasting labels","estimator state")],
 ["partial_fit","clone_state()"])

p("C20","A fit starts undecided and unbiased, differently for every seed",
 "Right after a fit for no epochs every automaton stands on one of the two sides next to the decision boundary, each with equal chance whatever its feature, clause, label and the seed, and every weight is 1. The positions of different automata, and those under different seeds, agree no more often than chance, and no two seeds give the same random stream. This holds equally for a model that was trained before.",
 ["configurations","histories"],
 "every configuration, shape and seed",
 "tests look at the start of a few small models under a few seeds; a start biased by place, repeated between clauses or insensitive to some bits of the seed passes them",
 ["lib/src/ta_state.cpp","lib/src/tsetlini_state.cpp","lib/include/mt.hpp"],
 [("initial automata","lib/src/ta_state.cpp"),("seeding","lib/src/tsetlini_state.cpp, lib/include/mt.hpp")],
 [],
 ["fit","clone_state()"])

p("C17","Parameter values are validated the same way however they are supplied",
 "An estimator configured through named arguments in any order and one configured through the equivalent document have the same parameters and defaults, and both refuse out-of-range values with the same status class.",
 ["inputs","configurations"],
 "every combination of parameter values",
 "tests sample single parameters",
 ["lib/src/tsetlini_params.cpp","lib/include/tsetlini.hpp","lib/include/arg_extract.hpp"],
 [("parameter assertions","lib/src/tsetlini_params.cpp")],
 [],
 ["read_params()","status of creation"])

p("C18","Bit and number containers behave like plain arrays",
 "Packed bit vectors and matrices and padded number matrices report, set, clear and flip exactly the addressed element, keep their padding clear and compare by content.",
 ["inputs"],
 "every size, position and operation sequence",
 "tests sample sizes",
 ["lib/include/basic_bit_vector.hpp","lib/include/basic_bit_matrix.hpp","lib/include/basic_numeric_matrix.hpp"],
 [("block and bit addressing","lib/include/basic_bit_vector.hpp, lib/include/basic_bit_matrix.hpp")],
 [],
 ["element reads"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
