#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the single table below (run by hand, output is committed)."""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D, E, R = 'DRecPy/Dataset/', 'DRecPy/Evaluation/', 'DRecPy/Recommender/'

P = []


def prop(id, title, statement, over, text, why, files, mech, level, note, tech):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]),
                  _level=level, _note=note, _tech=tech))


TRUST = ' Trusts the simulator (dst/), the reference model and the installed third-party libraries.'

prop('S01', 'Every dataset operation behaves like a table of records, on both backends',
     'For any sequence of dataset operations (load, select, filter by record, unique, copy, transform a column, assign or '
     'remove internal ids, close, garbage collection) on any number of live datasets that share data, every read of '
     'every live dataset returns exactly the records a plain table model of that dataset holds, with the same result on '
     'the memory and the database backend. An operation on one dataset (other than the in-place variants on that very '
     'dataset) never changes what another one holds.',
     ['histories', 'inputs', 'configurations'],
     'every finite history of operations over families of datasets derived from each other, every table content, every '
     'internal optimisation threshold',
     'Tests run a few fixed operation sequences on one small table; which dataset shares storage with which, and when the '
     'automatic optimisation rewrites it, depends on the whole history.',
     [D + 'db_dataset.py', D + 'mem_dataset.py', D + 'dataset_abc.py', D + 'query_utils.py', D + 'dataset_factory.py'],
     [('lazy state query and its optimisation', D + 'db_dataset.py:_optimize_states,_update_state,_record_interaction'),
      ('shared table bookkeeping', D + 'db_dataset.py:copy,close,_write_optimized_state'),
      ('shared data frame views', D + 'mem_dataset.py:copy,select,unique,drop')],
     'exploration', 'Seeded search over simulated histories against an executable table model; no exhaustive claim.' + TRUST,
     'deterministic simulation: seeded histories, refinement against a table model')

prop('S02', 'Interaction vectors and identifier lookups always reflect the current records',
     'Whatever operations ran before, the interaction vector of a user or item of a dataset with internal ids holds '
     'exactly the interactions of the current records of that dataset at the right positions, and translating raw to '
     'internal identifiers and back is the identity and agrees with the records. Cached results are never outdated.',
     ['histories', 'inputs', 'configurations'],
     'every history of operations interleaved with vector requests and lookups, every cache limit, any number of users '
     'and items (including more than 127 of either)',
     'Tests ask for vectors of freshly built datasets; staleness needs a modification between two requests and the limits '
     'of the caches or numeric types need many users.',
     [D + 'db_dataset.py', D + 'mem_dataset.py'],
     [('vector caches', D + 'db_dataset.py:select_user_interaction_vec,_clear_interaction_vec_caches'),
      ('interaction matrix', D + 'mem_dataset.py:select_user_interaction_vec'),
      ('id assignment', D + 'db_dataset.py:assign_internal_ids; ' + D + 'mem_dataset.py:assign_internal_ids')],
     'exploration', 'Seeded search over histories; entries of pairs with several records are not compared.' + TRUST,
     'deterministic simulation: seeded histories, refinement against a table model')

prop('S03', 'An open reader returns the records present when it was opened, exactly once each',
     'While a reader over the values of a dataset is open, whatever is done with that dataset, with datasets sharing its '
     'data or with other readers, the reader returns each record present at the moment it was opened exactly once and '
     'unchanged, and then ends. Operations performed while readers are open have the same effect as without them '
     '(column transformations and id assignment may be refused while a dataset sharing the data is being read, but '
     'then change nothing), and abandoned readers block nothing.',
     ['schedules', 'histories'],
     'every interleaving of reader steps with dataset operations, for any number of readers over datasets that share data',
     'Tests consume each reader at once; the conflict needs an operation between two steps of a reader.',
     [D + 'db_dataset.py', D + 'mem_dataset.py'],
     [('cursors of open value generators', D + 'db_dataset.py:values,ValueGenerator'),
      ('optimisation and table drop while being read', D + 'db_dataset.py:_optimize_states,close,_transaction')],
     'exploration', 'Seeded search over interleavings of readers and operations.' + TRUST,
     'deterministic simulation: seeded interleavings of readers and operations, snapshot oracle')

prop('S04', 'A failed operation raises and leaves every dataset as it was',
     'If a database statement, the disk or a transformation supplied by the caller fails at any point of any dataset '
     'operation, the operation either reports the failure or has its full effect. After a reported failure every live '
     'dataset still holds exactly the records it held before the operation, and once the fault is gone the same operation '
     'and all later ones work normally.',
     ['fault_sequences', 'histories'],
     'every operation of every history, every failing statement, disk write or callback invocation, single or persistent',
     'Tests inject no failures; the intermediate states only exist between the statements of one operation.',
     [D + 'db_dataset.py', D + 'mem_dataset.py'],
     [('transactions and rollback', D + 'db_dataset.py:_transaction,apply,assign_internal_ids,_optimize_states'),
      ('state update order', D + 'db_dataset.py:_update_state,unique')],
     'exploration', 'Seeded search over fault positions; disk faults at the system call boundary, statement faults at the '
     'SQLite API.' + TRUST,
     'deterministic simulation with injected statement, disk and callback failures, reference model')

prop('S05', 'Running short of memory never yields a wrong result',
     'When an allocation of an interaction vector or matrix, or of a table being loaded, fails, the request either raises '
     'the memory error or returns exactly what it returns with enough memory, and later requests are unaffected. A vector '
     'that fits is returned even when the full interaction matrix does not, and a table that cannot be held in memory is '
     'loaded through a database with the same records.',
     ['fault_sequences', 'histories', 'inputs'],
     'every allocation of every vector request, load and nearest-neighbour prediction in any history',
     'No test makes an allocation fail, so the fallback paths never run with checked results.',
     [D + 'mem_dataset.py', D + 'db_dataset.py', D + 'dataset_factory.py', R + 'Baseline/base_knn.py'],
     [('matrix fallback to per-row vectors', D + 'mem_dataset.py:select_user_interaction_vec'),
      ('load fallback', D + 'dataset_factory.py')],
     'exploration', 'Allocation failures are injected at matrix construction and table reading only.' + TRUST,
     'deterministic simulation with injected allocation failures, reference model')

prop('S06', 'Saving a dataset is all or nothing, faithful, and never touches the source file',
     'If the process crashes or the disk fails at any point while a dataset is saved, the target is left either as it was '
     'or completely written, never damaged, and a save that returns normally is complete. A saved file loads back as the '
     'same records and columns, and a file a dataset was loaded from is never modified or removed by anything except an '
     'explicit save onto it.',
     ['crash_points', 'fault_sequences', 'histories', 'inputs'],
     'every system call of every save (crash, error, full disk, short write), both formats and backends, any dataset',
     'Tests save once to a healthy disk and never crash; a torn file needs a crash between two writes.',
     [D + 'file_utils.py', D + 'db_dataset.py', D + 'mem_dataset.py'],
     [('write to a temporary file and rename', D + 'file_utils.py:replace_file'),
      ('save', D + 'db_dataset.py:save,_copy_to_new_db; ' + D + 'mem_dataset.py:save'),
      ('private copy of database files', D + 'db_dataset.py:_load_from_db')],
     'exploration', 'Process crashes, not power loss: bytes handed to the kernel survive.' + TRUST,
     'deterministic simulation with crash points and disk faults at system calls, before/after oracle')

prop('S07', 'Temporary files never outlive their owner, other files are never removed',
     'Once every dataset of a process is closed or collected, no temporary data file of it is left, whatever operations '
     'ran or failed before. Temporary data files left by a crashed process are removed at the next start, while files '
     'that are not temporary, or whose owner is still running, are never removed or altered.',
     ['crash_points', 'histories', 'schedules'],
     'every sequence of processes sharing the data folder, each ending by closing, garbage collection in any order, normal '
     'exit or a crash at any system call, including process id reuse',
     'Tests run in one process that never crashes.',
     [D + 'file_utils.py', D + 'db_dataset.py', D + '__init__.py'],
     [('registry of temporary files per process', D + 'file_utils.py:_update_registry,delete_temp_files'),
      ('reference counting of database files', D + 'db_dataset.py:close,_remove_temp_db')],
     'exploration', 'After a full disk the list of temporary files itself may remain.' + TRUST,
     'deterministic simulation of process lifetimes with crash points, directory oracle')

prop('S08', 'Integrated datasets are fetched and split completely or not at all',
     'Whatever happens during the first request of an integrated dataset (refused or cut connections, error responses, '
     'damaged archives, disk errors, a crash, other threads requesting it), a request that succeeds returns exactly the '
     'published records, including train and test parts that together are the full data of the users that have enough of '
     'it. A failed attempt never leaves anything that a later request would take for the dataset, and a retry without '
     'faults succeeds.',
     ['fault_sequences', 'crash_points', 'schedules'],
     'every network and disk fault sequence, every crash point, every interleaving of concurrent requests',
     'There is no network in the tests; partial downloads cannot be observed on a healthy connection.',
     [D + 'integrated_datasets.py', D + 'file_utils.py'],
     [('download and extraction', D + 'integrated_datasets.py'), ('stored check', D + 'file_utils.py:is_stored')],
     'exploration', 'Small archives with the published layouts are served by a simulated transport.' + TRUST,
     'deterministic simulation with network, disk and crash faults, and thread interleavings')

prop('S09', 'Splits conserve records and do not depend on thread scheduling',
     'Every split of any dataset puts each record of the users that are to be kept in exactly one of train and test, '
     'unchanged, with the number or share of test records that was requested, and leaves the given dataset as it was. '
     'For given arguments the result is the same for any number of worker threads and any interleaving of them.',
     ['schedules', 'inputs', 'configurations'],
     'every interleaving of the worker threads at byte code granularity, every dataset or view, backend, seed and split '
     'configuration',
     'Tests observe the one interleaving the machine happens to produce on a fresh dataset.',
     [E + 'Splits/leave_k_out.py', E + 'Splits/matrix_split.py', E + 'Splits/random_split.py', D + 'db_dataset.py'],
     [('worker pool and shared result lists', E + 'Splits/leave_k_out.py; ' + E + 'Splits/matrix_split.py'),
      ('shared dataset used by workers', D + 'db_dataset.py:_lock')],
     'exploration', 'Seeded preemption at byte codes of /repo code and at every lock, pool, sleep and SQL statement.' + TRUST,
     'deterministic simulation: controlled thread scheduling, conservation and single-thread reference')

prop('S10', 'Evaluation results equal a serial evaluation, whatever the thread schedule',
     'Ranking, recommendation and predictive evaluation return, for every requested metric and truncation, the average of '
     'the metric over the evaluated users (or predictions) that a serial evaluation by the definitions yields, for any '
     'number of worker threads and any interleaving of them. Users the model does not know are skipped, and neither the '
     'model nor the train and test datasets are changed by an evaluation.',
     ['schedules', 'inputs', 'configurations'],
     'every interleaving of the worker threads at byte code granularity, every train and test dataset, backend, model, '
     'seed, metric set and evaluation configuration',
     'Tests observe one interleaving and one small dataset; lost or doubled metric contributions depend on the schedule.',
     [E + 'Processes/ranking_evaluation.py', E + 'Processes/recommendation_evaluation.py',
      E + 'Processes/predictive_evaluation.py', E + 'Metrics/ranking.py', E + 'Metrics/predictive.py',
      R + 'recommender_abc.py'],
     [('worker pool and shared metric lists', E + 'Processes/ranking_evaluation.py; ' +
       E + 'Processes/recommendation_evaluation.py'),
      ('per-user seeded sampling of test interactions', E + 'Processes/ranking_evaluation.py'),
      ('metrics', E + 'Metrics/ranking.py')],
     'exploration', 'Requests that sample interactions are recomputed from the samples they took (checked to be admissible) and '
     'compared with the single-thread run, all others with an independent serial evaluation.' + TRUST,
     'deterministic simulation: controlled thread scheduling, independent serial reference evaluation')

prop('S11', 'Splits and evaluations with failing tasks end, and report or isolate the failure',
     'When a worker of a split or evaluation fails (a failing statement or selection, a model that raises), the call '
     'still ends. A split then raises, or returns a complete and correct result; an evaluation raises, or returns the '
     'correct average without the users whose task failed. The dataset and the model are as before and repeating the '
     'call without the fault gives the fault-free result, with or without progress display.',
     ['fault_sequences', 'schedules', 'configurations'],
     'every failing statement, selection or prediction, any number of them, every interleaving of the workers, with and '
     'without progress display',
     'Tests have no failing workers; a task that dies before signalling completion hangs its caller only then.',
     [E + 'Splits/leave_k_out.py', E + 'Splits/matrix_split.py', E + 'Processes/ranking_evaluation.py',
      E + 'Processes/recommendation_evaluation.py'],
     [('completion counting and progress loop', E + 'Splits/leave_k_out.py; ' + E + 'Splits/matrix_split.py'),
      ('isolation of failing users', E + 'Processes/ranking_evaluation.py; ' + E + 'Processes/recommendation_evaluation.py')],
     'exploration', 'Termination means within 6 million simulated steps.' + TRUST,
     'deterministic simulation: controlled thread scheduling with injected task failures, bounded progress')

prop('S12', 'A seed determines the result, whatever else happens in the process',
     'Splits, samplers, random record and missing pair generators, sampling evaluations and trainings of the deep '
     'recommenders that are given a seed return the same result for the same data and arguments in every execution: independent of the state of the process-wide '
     'random generators (which they leave alone), of other requests interleaved with them, of the number of threads and '
     'of the hash seed of the interpreter.',
     ['schedules', 'histories', 'configurations'],
     'every interleaving of seeded requests with each other and with unrelated work, every thread schedule, every state '
     'of the global generators, every hash seed',
     'Tests repeat a request in a fresh process-wide state; sharing a generator or relying on set order only shows when '
     'something else happens in between or in another interpreter.',
     ['DRecPy/Sampler/point_sampler.py', 'DRecPy/Sampler/list_sampler.py', D + 'mem_dataset.py', D + 'db_dataset.py',
      E + 'Splits/leave_k_out.py', E + 'Splits/random_split.py', E + 'Splits/matrix_split.py',
      E + 'Processes/ranking_evaluation.py', R + 'recommender_abc.py', R + 'cdae.py', R + 'dmf.py', R + 'caser.py'],
     [('seeded generators', D + 'db_dataset.py:select_random_generator,null_interaction_pair_generator; ' + D +
       'mem_dataset.py:select_random_generator,null_interaction_pair_generator'),
      ('per-user generators of splits and evaluations', E + 'Splits/leave_k_out.py; ' + E + 'Processes/ranking_evaluation.py'),
      ('sampler generators', 'DRecPy/Sampler/point_sampler.py; DRecPy/Sampler/list_sampler.py')],
     'exploration', 'Each set of requests is executed in two surroundings and part of them under a second hash seed.' + TRUST,
     'deterministic simulation: same seeds in different simulated surroundings, equality of results')

prop('S13', 'Samplers only ever yield valid samples, and can yield every one of them',
     'Whatever else is done with the data meanwhile, and with any number of samplers in any number of threads, every '
     'positive sample is a record of the dataset at or above the threshold, every negative sample is a pair of known '
     'ids without such a record, every sampled group is a gapless sorted sequence of distinct positive records of one '
     'group within the requested bounds with valid negatives, in the requested numbers. Every record and every missing '
     'pair can be drawn.',
     ['schedules', 'histories', 'inputs', 'configurations'],
     'every dataset or view (more than 127 users or items included), sampler configuration, seed and interleaving of '
     'draws with each other and with other use of the data',
     'Tests draw a few samples from one fresh table; wrong samples need views with gaps in the ids, many users, or '
     'another use of the data between two draws.',
     ['DRecPy/Sampler/point_sampler.py', 'DRecPy/Sampler/list_sampler.py', D + 'mem_dataset.py', D + 'db_dataset.py'],
     [('drawing records and missing pairs', D + 'db_dataset.py:select_random_generator,null_interaction_pair_generator; ' + D +
       'mem_dataset.py:select_random_generator,null_interaction_pair_generator'),
      ('group sequences', 'DRecPy/Sampler/list_sampler.py:sample_group_records'),
      ('positives and negatives', 'DRecPy/Sampler/point_sampler.py')],
     'exploration', 'Reachability is decided with a miss probability below 1e-9.' + TRUST,
     'deterministic simulation: interleaved and threaded draws, validity oracle over the records')

prop('S14', 'Training takes exactly the requested steps and ends with the best weights',
     'A fit performs the requested number of epochs (or those up to where the early stopping rule stops it), each being one '
     'gradient step on one batch, and ends with the weights of the epoch with the best callback value if early stopping '
     'selected one, else with those of the last epoch. A fit that fails (batch, callback, statement, interruption) reports '
     'it, and later fits of the same model object, on the same or other data, behave like the first fit of a new one. The '
     'records of the dataset are never changed.',
     ['fault_sequences', 'histories', 'configurations'],
     'every sequence of fits of a model object, with or without failures at any epoch, every callback value sequence and '
     'early stopping configuration',
     'Tests check a few training runs of fresh models; left-over state of earlier or failed fits and the position of the '
     'best epoch relative to the callback frequency are not covered.',
     [R + 'recommender_abc.py', R + 'EarlyStopping/max_validation_value_rule.py', E + 'loss_tracker.py', R + 'cdae.py',
      R + 'dmf.py', R + 'caser.py'],
     [('training loop and early stopping', R + 'recommender_abc.py:fit,_store_epoch_weights,_revert_weights'),
      ('best epoch bookkeeping', R + 'EarlyStopping/max_validation_value_rule.py; ' + E + 'loss_tracker.py')],
     'exploration', 'Most runs train a small model of plain variables, recomputed step by step by independent code; part of them '
     'train CDAE, DMF or Caser, whose steps are compared with the gradient of the loss they define.' + TRUST,
     'deterministic simulation: histories of fits with injected failures, recomputed training as oracle')

prop('S17', 'Threads sharing datasets get the results they would get alone',
     'When several threads use the same datasets at the same time (reading, selecting, requesting vectors, lookups and '
     'samples, deriving datasets and modifying, closing or dropping those of their own), every request returns what it '
     'returns when the thread runs alone, the shared datasets stay as they are, and a failing statement affects only the '
     'request it belongs to. A modification refused because another thread reads the data changes nothing and succeeds '
     'once that reader is done.',
     ['schedules', 'fault_sequences', 'histories'],
     'every interleaving of the threads, any number of them, any mix of requests, both backends, failing statements',
     'Tests use one thread; races on shared connections, tables and lazily built caches need a particular interleaving.',
     [D + 'db_dataset.py', D + 'mem_dataset.py'],
     [('serialised use of shared tables', D + 'db_dataset.py:_synchronized,_lock'),
      ('lazily built interaction matrices', D + 'mem_dataset.py:_build_interaction_matrix,select_user_interaction_vec')],
     'exploration', 'Datasets that are shared are not themselves modified in place.' + TRUST,
     'deterministic simulation: controlled thread scheduling, each thread alone as reference')

prop('S15', 'A model file holds the old or the complete new model, and answers as saved',
     'Saving a fitted model to a path and loading it in another process gives a model that answers every request (predict, '
     'rank, recommend) as the saved one did and can be fitted again. If the save is hit by a crash, a failing or short write '
     'or a full disk, the path afterwards holds either what it held before or the complete new model, a later save succeeds, '
     'files next to it stay untouched and the model in memory keeps working. A save that cannot work (a model over a '
     'database dataset) raises and leaves the path alone.',
     ['crash_points', 'fault_sequences', 'inputs'],
     'every system call of the save at which the process crashes or the disk fails, every fitted neighbour or deep model and data set',
     'Tests save once to a fresh path on a working disk; they never interrupt a save or look at what it replaces.',
     [R + 'recommender_abc.py', D + 'file_utils.py', D + 'mem_dataset.py'],
     [('model save and load', R + 'recommender_abc.py:save,load'), ('atomic replacement', D + 'file_utils.py:replace_file')],
     'exploration', 'Process crashes, not power loss; one writer per file (several are the subject of S20).' + TRUST,
     'deterministic simulation: crash and disk fault injection at every file-changing system call, model answers as oracle')

prop('S16', 'Threads using one fitted model get the answers they would get alone',
     'When several threads use the same fitted model (predict, recommend, rank) and the dataset it was fitted on (reads, '
     'selections, interaction vectors) at the same time, every request returns what it returns when the model is used by one '
     'thread, the dataset stays unchanged, a failing database statement affects only the request it belongs to, and nothing '
     'wrong is remembered afterwards.',
     ['schedules', 'fault_sequences', 'configurations'],
     'every interleaving of the requests of any number of threads, every neighbour configuration, both backends',
     'Tests use one thread; lazily filled caches and shared cursors need a particular interleaving.',
     [R + 'recommender_abc.py', R + 'Baseline/user_knn.py', R + 'Baseline/item_knn.py', D + 'db_dataset.py',
      D + 'mem_dataset.py'],
     [('requests over the shared dataset', R + 'recommender_abc.py:predict,_rank; ' + R + 'Baseline/user_knn.py:_rank'),
      ('shared tables', D + 'db_dataset.py:_synchronized')],
     'exploration', 'The model is not fitted while it is in use.' + TRUST,
     'deterministic simulation: controlled thread scheduling, single-thread answers as reference')

prop('S18', 'A load returns exactly the records of its source, or fails without a trace',
     'Loading a csv file, a saved database or a data frame gives a dataset with exactly the records and columns of the '
     'source (any column order, header, delimiter, quoting, encoding, skipped columns, chunk size, labels, index), equal on '
     'both backends, also when reads come in short pieces and when several threads load at once. A load hit by a read error, '
     'a failing statement, a full disk or a damaged file raises, or returns the complete data; it never returns part of it, '
     'leaves no temporary files or open handles behind, never modifies the source, and succeeds when repeated without the '
     'fault.',
     ['fault_sequences', 'inputs', 'configurations', 'schedules'],
     'every point at which a read, write or statement fails or returns less than asked, every well-formed source and load '
     'configuration',
     'Tests load a few small files on a working disk; failing reads in the middle of a load, chunk limits and unusual but '
     'legal sources are not covered.',
     [D + 'dataset_factory.py', D + 'mem_dataset.py', D + 'db_dataset.py', D + 'file_utils.py'],
     [('csv loading in chunks', D + 'db_dataset.py:_load_from_csv'), ('csv and frame loading', D + 'mem_dataset.py'),
      ('fallback between backends', D + 'dataset_factory.py')],
     'exploration', 'Files with undecodable bytes and a long delimiter are only required not to be changed.' + TRUST,
     'deterministic simulation: read, write, statement and allocation faults during loads, the source as oracle')

prop('S19', 'A fitted model keeps its answers, whatever happens to other data and models',
     'After a fit, a model answers every request the same for as long as it lives: whatever is done to the dataset it copied '
     'or to relatives of the dataset it was given (transformed, filtered, closed, dropped, optimised), however many other '
     'models are fitted, and after being fitted on other data before; a neighbour model answers as one fitted on the '
     'same records newly loaded. A fit on a copy leaves the given dataset as it was, any other only adds internal ids to it. '
     'A fit that fails is reported, leaves all datasets intact, and its model does not answer with a mixture of two fits.',
     ['histories', 'fault_sequences', 'configurations'],
     'every finite history of dataset operations, fits, refits and requests over families of datasets on both backends, '
     'statement and allocation failures at any point of a fit',
     'Tests fit one fresh model on one fresh dataset; what a model shares with datasets and other models shows only in '
     'longer histories.',
     [R + 'recommender_abc.py', R + 'Baseline/base_knn.py', R + 'Baseline/user_knn.py', R + 'Baseline/item_knn.py',
      D + 'db_dataset.py', D + 'mem_dataset.py'],
     [('dataset taken over or copied', R + 'recommender_abc.py:fit'),
      ('state kept between fits', R + 'Baseline/base_knn.py:_pre_fit; ' + R + 'recommender_abc.py:_reset_trainables')],
     'exploration', 'Datasets handed over without copy_dataset are not modified in place while the model is in use.' + TRUST,
     'deterministic simulation: seeded histories with injected failures, table model and freshly fitted models as oracles')

prop('S20', 'Processes working side by side never damage each other\'s files',
     'Several processes using DRecPy at the same time (saving datasets or models to one path while others load it, creating '
     'and cleaning the shared data folder, downloading and splitting the same integrated dataset), some of them crashing, '
     'behave as if they ran one after another: a load returns the complete result of one of the saves that it may see, no '
     'process fails because of another one, no file of a live process is removed, and what is finally on disk is complete.',
     ['schedules', 'crash_points', 'histories'],
     'every interleaving of the system calls of several processes, crash points in any of them',
     'Tests run one process; the interleavings of the file operations of two processes are not controlled.',
     [D + 'file_utils.py', D + 'integrated_datasets.py', D + 'db_dataset.py', D + 'mem_dataset.py', R + 'recommender_abc.py'],
     [('atomic replacement under a unique name', D + 'file_utils.py:replace_file'),
      ('clean-up of what dead processes left', D + 'file_utils.py:delete_temp_files,register_temp_file,_owner_is_running'),
      ('download and extraction', D + 'integrated_datasets.py')],
     'exploration', 'Real processes; a scheduler decides at every file-changing system call which one goes on.' + TRUST,
     'deterministic simulation: controlled process scheduling at system calls, register linearizability of saved files')

prop('S24', 'Predictions, rankings and recommendations of a model agree with each other',
     'Whatever was requested before, in whatever order, from however many threads and with statements failing in between: the '
     'ranking of some items (or the recommendation) for a user holds exactly the best requested number of the items that are '
     'allowed and can be predicted, each once and with the score that predict gives for it, best first. Requesting novelty leaves '
     'out exactly the items the user interacted with in the data of the last fit, an interaction threshold exactly the items that '
     'score less. Unknown users and items raise or are skipped as requested, and no request changes the answer to a later one.',
     ['histories', 'inputs', 'schedules', 'configurations'],
     'every history of fits and requests, every dataset view, every recommender of the repository (and custom ones based on '
     'its base class), thread interleavings, statement failures',
     'Tests pin a few lists for one dataset; agreement between the three kinds of request has to hold for every pair, and what a '
     'model remembers between requests or fits matters only for histories of them.',
     [R + 'recommender_abc.py', R + 'Baseline/item_knn.py', R + 'Baseline/user_knn.py', R + 'Baseline/base_knn.py', R + 'cdae.py',
      R + 'caser.py', R + 'dmf.py'],
     [('ranking', R + 'recommender_abc.py:rank,_rank; ' + R + 'Baseline/item_knn.py:_rank; ' + R + 'Baseline/user_knn.py:_rank; '
       + R + 'cdae.py:_rank; ' + R + 'caser.py:_rank'),
      ('recommendation', R + 'recommender_abc.py:recommend,_recommend'),
      ('caches of similarities, scores and representations', R + 'Baseline/base_knn.py; ' + R + 'cdae.py; ' + R + 'dmf.py')],
     'exploration', 'Seeded search; equal scores may come in any order; scores compared with a tolerance of 1e-5.' + TRUST,
     'deterministic simulation: seeded requests, threads and faults against the predictions as a model')

NA = []


def na(id, title, statement, over, text, why, files, mech, reason):
    NA.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]), _reason=reason))


na('S21', 'Ranking and regression metrics equal their textbook definitions',
   'Every metric returns the value of its published definition for every list of recommendations and relevant items (or '
   'predictions and true values), bounded as the definition bounds it, and does not modify its arguments.',
   ['inputs'], 'every list of recommendations, relevances and predictions',
   'Tests compare a few hand-computed values.',
   [E + 'Metrics/ranking.py', E + 'Metrics/regression.py'], [('metric formulas', E + 'Metrics/ranking.py; ' + E + 'Metrics/regression.py')],
   'A metric is a pure function of its arguments: no schedule, clock, I/O or fault takes part, so there is nothing to '
   'simulate (how evaluations use metrics under threads and failures is S10 and S12).')

na('S22', 'Similarities and aggregations equal their definitions',
   'Every similarity of two users or items and every aggregation of neighbour values equals its published definition, is '
   'symmetric where the definition is, and is finite or absent for degenerate inputs.',
   ['inputs'], 'every interaction matrix', 'Tests compare a few small matrices.',
   [R + 'Baseline/similarity.py', R + 'Baseline/aggregation.py'],
   [('similarity formulas', R + 'Baseline/similarity.py'), ('aggregation formulas', R + 'Baseline/aggregation.py')],
   'Pure functions of a matrix: no schedule, clock, I/O or fault takes part (which neighbours and records reach them, in '
   'which histories and threads, is S16 and S19).')

na('S23', 'The deep recommenders train the architectures they are named after',
   'CDAE, DMF and Caser minimise the loss of the papers they implement, on batches that their samplers draw from the '
   'training dataset only, and predict with the trained weights.',
   ['inputs', 'configurations'], 'every dataset and model configuration',
   'Tests pin the predictions of a few seeded runs.',
   [R + 'cdae.py', R + 'dmf.py', R + 'caser.py'], [('architectures', R + 'cdae.py; ' + R + 'dmf.py; ' + R + 'caser.py')],
   'The architectures are pure numeric functions of weights and batches: no schedule, clock, I/O or fault takes part. What '
   'surrounds them is claimed: training histories and failures (S14), seeds (S12), model files (S15), threads (S16), '
   'independence of other data (S19) and the samplers (S13).')


def main():
    sys.path.insert(0, ROOT)
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith('_')}) + '\n')
        for p in NA:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith('_')}) + '\n')
    m = dict(version=1, setup_cmd='gcc -fsyntax-only dst/shim.c && test -x /opt/venv/bin/python',
             hooks=dict(guard='none', enable='no hooks: every seam is outside /repo (standard library, SQLite API, '
                                             'transport adapters, system calls)', source_commits=[]),
             checks=[dict(property=p['id'], quick_cmd=f'./check.py {p["id"]} --tier quick',
                          thorough_cmd=f'./check.py {p["id"]} --tier thorough',
                          evidence_file=f'evidence/{p["id"]}.json', technique=p['_tech'], level=p['_level'],
                          level_note=p['_note']) for p in P],
             not_applicable=[dict(property=p['id'], reason=p['_reason']) for p in NA],
             notes='One process simulates threads, clocks, disk, network, memory and crashes; one seed is one run. Replay '
                   'a reported violation with ./check.py <id> --replay <file>.')
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
