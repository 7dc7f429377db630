"""Writes properties.jsonl and MANIFEST.json (run it after editing)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = 'src/fauxdoc/'
EM, GR, MT, MX, PR, DT, WN, TY = (S + n + '.py' for n in (
    'emitter', 'group', 'mathtools', 'mixins', 'profile', 'dtrange', 'warn',
    'typing'))
CH, FX, FF, TX, WR = (S + 'emitters/' + n + '.py' for n in (
    'choice', 'fixed', 'fromfields', 'text', 'wrappers'))
INIT = S + 'emitters/__init__.py'

P = []


def prop(pid, title, statement, over, quant, why, mech, observe, method,
         note, state=None):
    assert len(title) <= 80, (pid, len(title))
    files = []
    for _, where in mech:
        f = where.split(':')[0]
        if f not in files:
            files.append(f)
    anchors = {'files': files,
               'mechanism': [{'name': n, 'where': w} for n, w in mech],
               'observe_at': observe, 'hook_needed': None}
    if state:
        anchors['state'] = [{'name': n, 'meaning': m, 'where': w}
                            for n, m, w in state]
    P.append(({'id': pid, 'title': title, 'statement': statement,
               'quantifier': {'over': over, 'text': quant},
               'why_tests_cant': why, 'anchors': anchors}, method, note))


prop('C01', 'Calling any emitter keeps the single-value and batch contract',
     'Calling an emitter without a number returns one value, and calling it '
     'with a number n returns a list of exactly n values that belongs to the '
     'caller, for any n from 0 upwards, any emitter, and any nesting of '
     'emitters. Where a request cannot be filled (more values asked for than '
     'an emitter without replacement can give) a ValueError is raised instead '
     'of a short list. Custom emitters need to provide only the two methods '
     'for one and for many values.',
     ['inputs', 'programs', 'histories'],
     'all trees of built-in and custom emitters, all sequences of calls with '
     'and without a number (0, 1, large)',
     'The tests call each emitter type with a few fixed numbers, mostly '
     'greater than 0, and rarely mix single calls and batches on nested '
     'emitters.',
     [('dispatch to one-value or batch methods', EM + ':Emitter.__call__'),
      ('batch methods', CH + ':Choice.emit_many'),
      ('batch methods', FX + ':Sequential.emit_many'),
      ('batch methods', TX + ':Word.emit_many, Text.emit_many'),
      ('batch methods', WR + ':WrapOne.emit_many, WrapMany.emit_many')],
     ['return values and exceptions of emitter calls'],
     'trace oracle over recorded calls of random emitter trees',
     'checks type, size and ownership of every result of the generated call '
     'sequences')

prop('C02', 'Equal seeds and configurations give equal output',
     'Two emitters or schemas that are built in the same way with the same '
     'seeds emit the same values when they are called in the same way. '
     'Whatever else happens in the process (other emitters, use of the global '
     'random module) or differs between processes (hash randomisation) makes '
     'no difference. Building, seeding, resetting and emitting never change '
     'the state of the global random module.',
     ['configurations', 'histories', 'schedules'],
     'all seeded emitter trees and schemas, all call sequences, all '
     'interleavings with other activity, all hash seeds',
     'The tests compare a few seeded outputs with constants in one process, '
     'without interleaving other emitters.',
     [('own RNG per emitter', MX + ':RandomMixin.reset'),
      ('RNG passed to wrapped callables', WR + ':BoundWrapper.__call__'),
      ('seeding of field parts', PR + ':Field.__init__')],
     ['emitted values', 'random.getstate() of the global module'],
     'differential runtime monitoring: disturbed twin runs and runs in other '
     'processes against an undisturbed run',
     'equality of complete traces of twin runs, with injected noise')

prop('C03', 'Reset restores the initial state of emitters, fields and schemas',
     'After reset, an emitter, field or schema emits exactly what a newly '
     'built one with the same settings emits. This holds after any history of '
     'calls, failed calls and changes of settings.',
     ['histories', 'configurations'],
     'all seeded emitter trees and schemas, all histories before the reset, '
     'all call sequences after it',
     'The tests reset a few emitters after a few calls; they do not combine '
     'resets with over-requests, exhausted emitters or changed settings in '
     'nested emitters.',
     [('RNG and children reset', MX + ':RandomMixin.reset, '
       'ChildrenMixin.reset, RandomWithChildrenMixin.reset'),
      ('item pool reset', CH + ':Choice.reset'),
      ('iterators', FX + ':Iterative.reset, Sequential.reset'),
      ('fields', PR + ':Field.reset, Schema.reset_fields')],
     ['values emitted after reset'],
     'differential runtime monitoring: the trace after reset against the '
     'trace of a fresh build',
     'equality of traces on generated histories')

prop('C04', 'Seeding determines all later output of the whole tree',
     'From when an emitter, field or schema is seeded, everything random in '
     'it, at any depth, behaves as if it was just built with that seed, '
     'whatever happened before. Resetting it later repeats the same output. '
     'Assigning the seed attribute alone changes nothing until the next '
     'reset, which then uses it for the whole tree.',
     ['histories', 'configurations', 'inputs'],
     'all emitter trees, all histories, all types of seeds that Python '
     'accepts (including 0, negative, text, None is excluded)',
     'The tests seed single emitters with a handful of integers, and compare '
     'few nested ones.',
     [('seed', MX + ':RandomMixin.seed, RandomWithChildrenMixin.seed'),
      ('pool rebuilt with the new seed', CH + ':Choice.seed'),
      ('schema', PR + ':Schema.seed_fields')],
     ['values emitted after seed and after seed plus reset'],
     'differential runtime monitoring: seeded trace against a fresh build '
     'with that seed',
     'equality of traces on generated histories')

prop('C05', 'Choice without replacement emits each item exactly once',
     'An emitter without replacement never emits an item again until it is '
     'reset, and emits all items (with their multiplicities) if it is asked '
     'for as many. A request for more than what remains raises a ValueError '
     'and uses up nothing. Items without weight come last but are not lost.',
     ['histories', 'inputs'],
     'all lists of items (duplicates, unhashable items, ranges), weights, '
     'sequences of calls, over-requests, resets, seeds and settings changes',
     'The tests draw from a few short lists; exhaustion after mixed single '
     'calls, failed requests and settings changes is not explored.',
     [('global shuffle and position', CH + ':Choice._global_shuffle, '
       'Choice._choice_without_replacement'),
      ('weighted shuffle', MT + ':weighted_shuffle')],
     ['emitted values', 'num_unique_items and emits_unique_values',
      'ValueErrors'],
     'online ledger monitor (exactly-once, conservation of items)',
     'every emission is checked against the multiset of remaining items',
     [('remaining items', 'items that have not been emitted since the last '
       'reset', CH + ':Choice')])

prop('C06', 'Replacing only after each call: no repeats in one call, all later',
     'An emitter that replaces items only after each call emits no item twice '
     'in one batch, whatever the size of the batch, and any item can appear '
     'again in the next call. A batch as large as the list is a permutation '
     'of it; a larger one raises a ValueError without side effects on what '
     'can be emitted.',
     ['inputs', 'histories'],
     'all lists of items, weights, batch sizes and call sequences, also '
     'through wrappers and multi-valued fields',
     'The tests use small lists; the sampling method depends on the ratio of '
     'batch size to list size.',
     [('sampling per call', CH + ':Choice._choice_without_replacement, '
       'Choice.emit_many'),
      ('weighted shuffle', MT + ':weighted_shuffle')],
     ['emitted values per call', 'ValueErrors'],
     'online multiset monitor per batch',
     'each batch is checked against the multiset of items')

prop('C07', 'What emitters report about uniqueness is true',
     'The number of unique values that an emitter reports is exactly the '
     'number of different values that it can emit, or None where that cannot '
     'be known; without replacement it is the number that remain at that '
     'point. An emitter says that it emits unique values exactly while all '
     'the items that remain are different. Words and texts count each '
     'possible combination of length, characters, words and separators once.',
     ['configurations', 'inputs', 'histories'],
     'all emitters over finite item lists (duplicates, unhashable items), '
     'word and text emitters with finite alphabets, lengths, words and '
     'separators, at all points of a history',
     'The tests compare the reported number with constants for a few '
     'configurations and never with what is emitted.',
     [('counting', MX + ':ItemsMixin.num_unique_values, count_unique'),
      ('remaining items', CH + ':Choice.num_unique_values, '
       'Choice.num_unique_items, Choice.emits_unique_values'),
      ('combinations', TX + ':Word._update_num_unique_vals, '
       'Text._update_num_unique_vals')],
     ['num_unique_values, num_unique_items, emits_unique_values',
      'emitted values'],
     'runtime monitor: reported numbers against values drained or covered, '
     'and an independent count',
     'small spaces are covered completely by emitting; larger ones are '
     'compared with a count made from the description')

prop('C08', 'Settings of Choice emitters stay coherent through any changes',
     'Weights and cumulative weights always describe the same distribution, '
     'whichever was set last, and the two replacement settings never '
     'contradict each other. Invalid settings (wrong number of weights, both '
     'kinds of weights, no items) are rejected with an error that names '
     'the problem, and have no effect. Changed settings take effect from the next call on, and '
     'lists that were passed in are not aliased.',
     ['histories', 'inputs', 'configurations'],
     'all sequences of valid and invalid assignments to the four settings, '
     'with calls in between',
     'The tests assign one or two settings from a few starting points.',
     [('weights', CH + ':Choice._set_all_weights and setters'),
      ('replacement', CH + ':Choice.replace, '
       'Choice.replace_only_after_call setters')],
     ['weights, cum_weights, replace, replace_only_after_call',
      'emitted values', 'ValueErrors'],
     'model-based runtime monitor of the four coupled settings',
     'state compared with a model after every assignment; behaviour probed')

prop('C09', 'Selections are distributed exactly as the weights say',
     'Items are selected with probabilities proportional to their weights '
     '(uniformly without weights), independently from draw to draw where '
     'items are replaced, and as sequential weighted sampling where they are '
     'not. The Poisson, Gaussian and chance factories assign the weights of '
     'the distribution, with a floor where one is given, for any parameters. '
     'This is so however the weights were provided or changed.',
     ['inputs', 'configurations', 'histories'],
     'all weights, factories and parameters, replacement modes, batch and '
     'single calls',
     'The tests pin seeded outputs and test rough proportions in a few cases; '
     'no test relates distribution to weights.',
     [('selection', CH + ':Choice._choice_with_replacement, '
       '_choice_without_replacement'),
      ('factories', CH + ':poisson_choice, gaussian_choice, chance'),
      ('shuffle', MT + ':weighted_shuffle'),
      ('distributions', MT + ':poisson, gaussian')],
     ['emitted values', 'weights of factory-made emitters'],
     'statistical runtime monitor (chi-square against exact distribution)',
     'fixed seeds, alarm below p = 1e-12; factory weights compared exactly')

prop('C10', 'Weighted shuffle returns a weighted selection without repeats',
     'Shuffling k of n weighted items returns exactly k of them (all, if no '
     'number is given), each position at most once, in an order that is '
     'distributed as sequential weighted sampling. This holds for zero, tiny '
     'and huge weights, for any k from 0 to n, and for any values that the '
     'random number generator can return. The same generator state gives the '
     'same result, the arguments are left alone, and mismatched numbers of '
     'weights or items raise a ValueError.',
     ['inputs'],
     'all lists of items and weights, all k, all RNG outputs in [0, 1)',
     'The tests shuffle a few lists with pinned outputs; rare RNG outputs and '
     'extreme weights never occur.',
     [('two algorithms', MT + ':weighted_shuffle (_faster_for_low_k, '
       '_faster_for_high_k)')],
     ['returned lists', 'exceptions'],
     'runtime oracle with hostile RNG injection, and a statistical monitor',
     'selections checked exactly; order checked by chi-square')

prop('C11', 'Fixed emitters emit exactly their sequence, in order, forever',
     'Static, sequential and iterative emitters emit exactly the values they '
     'were given, in order, starting again after the last one, without loss '
     'or repetition at the boundaries between calls and rounds. Starting '
     'again after each call happens if and only if it is switched on. Empty '
     'sources are rejected when they are set, and a rejected one leaves the '
     'emitter as it was.',
     ['histories', 'inputs'],
     'all sequences and iterator factories, all histories of single calls, '
     'batches, resets and settings changes',
     'The tests emit a few rounds with few batch sizes.',
     [('endless iterator', FX + ':Iterative.make_infinite_iter'),
      ('calls', FX + ':Iterative.emit, emit_many, Sequential.emit, '
       'emit_many'),
      ('validation', FX + ':Iterative.check_iter_factory, '
       'Sequential.check_seq_iter_factory')],
     ['emitted values', 'items', 'ValueErrors'],
     'online monitor with a cyclic position model',
     'every value compared with the model')

prop('C12', 'Words consist of exactly the characters the alphabet emitted',
     'Each word is the concatenation of as many values of the alphabet '
     'emitter as the length emitter said, in the order they were emitted. No '
     'character is lost, repeated or moved between the words of a batch, and '
     'lengths of 0 give empty words. A batch of n words asks for n lengths.',
     ['inputs', 'histories', 'configurations'],
     'all length and alphabet emitters, all histories of calls, resets and '
     'seeds',
     'The tests compare a few words with constants.',
     [('slicing characters into words', TX + ':Word.emit, Word.emit_many')],
     ['words', 'logs of the child emitters'],
     'offline checker over logs of unique tokens (conservation and order)',
     'every token that was handed out is accounted for')

prop('C13', 'Texts consist of exactly the words and separators emitted',
     'Each text is as many words as the number emitter said, joined by '
     'separators of the separator emitter (by default one space), in the '
     'order they were emitted, with none before the first or after the last '
     'word. No word or separator is lost, repeated or moved between texts, '
     'and 0 words give an empty text. A word emitter that replaces only after '
     'each call provides its words in rounds in which no word repeats.',
     ['inputs', 'histories', 'configurations'],
     'all number, word and separator emitters, all histories of calls, '
     'resets and seeds',
     'The tests compare a few texts with constants, never with numbers of 0.',
     [('joining', TX + ':Text.emit, Text.emit_many'),
      ('rounds of words', TX + ':Text._get_words_iterator')],
     ['texts', 'logs of the child emitters'],
     'offline checker over logs of unique tokens (conservation and order)',
     'every token that was handed out is accounted for')

prop('C14', 'Fields gate and repeat what their emitter emits',
     'Each call of a field asks its gate once; if the gate is closed (gives a '
     'false value) the value is None and nothing else is asked. If it is open, '
     'the value is '
     'one emitted value, or a list with as many as the repeat emitter said '
     'for fields that have one (so a multi-valued field always gives a list '
     'or None). The field remembers its last value until it is reset, and '
     'says correctly whether it is multi-valued.',
     ['histories', 'configurations', 'inputs'],
     'all gate, repeat and data emitters (with falsy values, 0 repeats), all '
     'histories of calls, resets, seeds and replaced emitters',
     'The tests use a few combinations with few values.',
     [('gating and repeating', PR + ':Field.__call__'),
      ('multi-valued', PR + ':Field.multi_valued'),
      ('memory', PR + ':Field.previous, Field.reset')],
     ['return values', 'previous', 'multi_valued',
      'logs of the child emitters'],
     'offline checker over logs of the gate, repeat and data emitters',
     'each call replayed from the logs')

prop('C15', 'A schema evaluates each field exactly once per document, in order',
     'Each document has exactly the names and values of the fields that are '
     'not hidden, in the order in which fields were added; every field, '
     'hidden or not, is evaluated exactly once per document and in that '
     'order. Adding, replacing, hiding or removing fields takes effect in the '
     'next document. Resetting or seeding the schema resets or seeds all '
     'fields.',
     ['histories', 'configurations'],
     'all schemas, all histories of documents and field changes',
     'The tests build a few schemas and check names and a few values.',
     [('documents', PR + ':Schema.__call__'),
      ('fields', PR + ':Schema.set_fields, add_fields, hidden_fields, '
       'public_fields'),
      ('broadcast', PR + ':Schema.reset_fields, seed_fields')],
     ['documents', 'evaluation log of the fields'],
     'online exactly-once and order monitor over the evaluation log',
     'every document checked against the log')

prop('C16', 'Copied fields equal what their sources emitted in that document',
     'A copying emitter gives exactly what its source fields last returned: '
     'the value itself for one single-valued source, otherwise the list of '
     'all values that are not None in order of the sources, or that list as '
     'text joined by the separator if there is one, or None (or an empty '
     'text) if there is nothing. It never makes a source emit, and falsy values are not '
     'dropped.',
     ['inputs', 'histories', 'configurations'],
     'all source fields (single- and multi-valued, gated, falsy values), '
     'separators, histories with resets and changed sources',
     'The tests copy a few constant values.',
     [('copying', FF + ':CopyFields.emit, emit_many'),
      ('sources', FF + ':SourceFieldGroup.single_valued')],
     ['copied values', 'log of the source fields'],
     'online oracle over the logged values of the sources',
     'every copy compared with one computed from the log')

prop('C17', 'Values based on fields apply the action to what sources emitted',
     'An emitter based on fields gives exactly what its action returns for '
     'the values that the source fields last returned, in the order of the '
     'sources, and calls the action once for each single value. The emitter\'s own '
     'random generator is passed if and only if the action accepts one. The '
     'sources are never made to emit or lose a value, and actions that do not '
     'fit are rejected with a TypeError when they are set.',
     ['inputs', 'histories', 'programs'],
     'all source fields, kinds of callables, histories of documents, resets, '
     'seeds and replaced actions',
     'The tests use a few lambdas and constant sources.',
     [('action', FF + ':BasedOnFields.emit, emit_many, set_action_function, '
       '_try_action'),
      ('binding', WR + ':BoundWrapper')],
     ['emitted values', 'log of the action', 'log of the source fields'],
     'online oracle over the logged calls of the action and shadow RNGs',
     'arguments and results of each call compared with the logs')

prop('C18', 'Wrappers call their function exactly once per source value',
     'A wrapped emitter gives exactly what the wrapper function returns for '
     'the values its sources emit: one call per value, with the sources\' '
     'values in step, in order, none lost or used twice; a batch of values is made from one batch of each source. The wrapper\'s own '
     'random generator is passed if and only if the function accepts one. '
     'Functions that do not fit are rejected with a TypeError when they are '
     'set, and errors raised by a function reach the caller.',
     ['inputs', 'histories', 'programs'],
     'all kinds of callables, source emitters and histories of calls, '
     'resets, seeds and replaced functions',
     'The tests wrap a few constant emitters with a few functions.',
     [('wrapping', WR + ':WrapOne.emit, emit_many, WrapMany.emit, emit_many'),
      ('binding', WR + ':BoundWrapper')],
     ['emitted values', 'log of the function', 'log of the sources'],
     'online oracle over the logged calls of the function and shadow RNGs',
     'arguments and results of each call compared with the logs')

prop('C19', 'Date ranges contain the values that a numeric range would',
     'A range of dates, datetimes or times has exactly the values start, '
     'start + step, ... before the stop, upwards or downwards, like the '
     'built-in range, for any step and unit; it is empty if the step leads '
     'away from the stop. Time ranges pass midnight where the stop is not '
     'after the start, so that equal start and stop times mean a whole day, '
     'and values keep the type and time zone of the start.',
     ['inputs'],
     'all starts, stops, steps and units, as text or objects, naive or aware',
     'The tests enumerate examples; the arithmetic has many boundary cases '
     '(midnight, fractions, backwards, microseconds, huge lengths).',
     [('factory', DT + ':dtrange'),
      ('values', DT + ':_index_to_value, DateOrTimeRange.__getitem__')],
     ['values, length, start, stop and step of ranges'],
     'runtime oracle: exact integer model in microseconds',
     'every value of generated ranges compared; huge ones sampled')

prop('C20', 'A date range behaves like the list of its values',
     'Indexing, slicing, iterating, reversing, membership, counting and '
     'finding give the same result, or the same kind of error, as on a list '
     'of the same values, for any index, slice or value, and slices are again '
     'such ranges. This holds for times that occur on several days, for '
     'negative steps, and for values of other types and of other time '
     'zones, with or without daylight saving time. No operation expands '
     'the range.',
     ['inputs', 'programs'],
     'all ranges and chains of sequence operations, with all in-range and '
     'out-of-range arguments',
     'The tests slice and index a few ranges; chains of slices and ranges '
     'that last several days are not explored.',
     [('sequence operations', DT + ':DateOrTimeRange.__getitem__, _find, '
       'index, __contains__, count, __len__')],
     ['results and exceptions of operations'],
     'differential runtime monitor against Python lists',
     'each operation of generated chains compared')

prop('C21', 'Date ranges are immutable values with consistent equality',
     'Two ranges are equal exactly if they have the same values in the same '
     'order (whatever start, stop, step or time zone made them), equal ranges have equal '
     'hashes, and comparison with anything else is False, not an error. A '
     'range cannot be changed after it is made, and copies and pickles equal '
     'the original.',
     ['inputs'],
     'all pairs of ranges that are the same or differ in one aspect, and '
     'other objects',
     'The tests compare a few pairs.',
     [('equality', DT + ':DateOrTimeRange.__eq__, __hash__'),
      ('read-only parts', DT + ':DateOrTimeRange setters, __setattr__')],
     ['==, !=, hash, attribute assignment'],
     'pairwise runtime monitor against equality of value lists',
     'all pairs in generated groups')

prop('C22', 'Date range arguments are parsed exactly and validated',
     'Start and stop may be given as objects or as ISO text with the same '
     'result. Arguments that cannot make sense (types that do not match, text '
     'that is no date or time, unknown units, steps smaller than the type can '
     'express, lengths that are not numbers) raise the documented error '
     'instead of giving a wrong range.',
     ['inputs'],
     'all ISO texts of dates, datetimes and times, all mismatches and '
     'invalid values',
     'The tests use a few texts and errors.',
     [('parsing', DT + ':_parse_user_date, dtrange'),
      ('validation', DT + ':DateOrTimeRange setters')],
     ['ranges or exceptions'],
     'runtime oracle: text against objects, and expected errors',
     'generated valid and invalid arguments')

prop('C23', 'Math helpers compute the textbook functions on their domain',
     'The Poisson and Gaussian functions are accurate for any argument in '
     'their domain, small or large, without overflow, and their sums are 1. '
     'Clamping returns the number if it is within the limits and the limit '
     'otherwise, with either limit optional and limits of 0 respected.',
     ['inputs'],
     'all numbers in the domains',
     'The tests compare a few values.',
     [('functions', MT + ':poisson, gaussian, clamp')],
     ['return values'],
     'runtime oracle: 60-digit decimal arithmetic',
     'relative error below 1e-9 on generated arguments')

prop('C24', 'Groups behave like lists or dicts and broadcast to all members',
     'A group of objects behaves exactly like the list or ordered dict of its '
     'members, and what slicing, adding, copying or pickling gives is again '
     'such a group. Broadcasting a method call or an attribute reaches every '
     'member that has it exactly once and in order, also if members leave or '
     'join the group meanwhile, and skips the others silently, including '
     'members that are None. Errors raised inside a '
     'member\'s method are not hidden.',
     ['histories', 'inputs'],
     'all histories of container operations and broadcasts, all kinds of '
     'members',
     'The tests broadcast to a few members and use few container operations.',
     [('broadcast', GR + ':GroupMixin.setattr, do_method'),
      ('containers', GR + ':ObjectGroup, ObjectMap')],
     ['container state', 'logs of the members'],
     'model-based runtime monitor with logging members',
     'every operation compared with a list or OrderedDict')

prop('C25', 'Alphabets contain exactly the characters of their ranges',
     'An alphabet is the list of exactly the characters from the first to the '
     'last of each range, ends included, in order of the ranges. Without '
     'ranges it is the printable Latin-1 characters without spaces, straight '
     'quotation marks and the soft hyphen. Each call gives a new list, and the arguments are left '
     'alone.',
     ['inputs'],
     'all lists of Unicode ranges',
     'The tests use a few ranges.',
     [('alphabet', TX + ':make_alphabet')],
     ['returned lists'],
     'runtime oracle: counting code points one by one',
     'generated ranges in all planes')

prop('C26', 'Emitters share no state and leave what they are given alone',
     'What one emitter or schema does never changes what another one emits, '
     'even if they were made from the same lists, weights, sources or '
     'functions, unless one contains the other. Arguments are never modified, '
     'and returned lists can be changed by the caller without any effect on '
     'later values. Without a seed, two emitters differ.',
     ['histories', 'schedules', 'configurations'],
     'all pairs of emitters or schemas and all interleavings of their calls, '
     'resets and seeds',
     'The tests use one emitter at a time.',
     [('own RNG and items', MX + ':RandomMixin, ItemsMixin'),
      ('own pool', CH + ':Choice'),
      ('own items', FX + ':Sequential, Static')],
     ['emitted values', 'arguments', 'state of the global random module'],
     'runtime interference monitor: interleaved against separate runs, deep '
     'snapshots of the arguments',
     'equality of traces and snapshots on generated pairs')

prop('C27', 'Anything that follows the emitter protocol can be a child emitter',
     'Any object that can be called with or without a number and reset (and '
     'seeded, if it is random) can take the place of an emitter in a wrapper, '
     'word, text or field, and the values are the same as with a real '
     'emitter. Parents only use the protocol: they call with no number or '
     'with a non-negative integer, and never need other attributes. Children '
     'that are falsy or lack optional parts work as well.',
     ['programs', 'histories'],
     'all trees in which any children are replaced by protocol objects, all '
     'histories',
     'The tests use real emitters almost everywhere.',
     [('children', MX + ':ChildrenMixin, RandomWithChildrenMixin'),
      ('skipping what members lack', GR + ':GroupMixin'),
      ('optional emitters', PR + ':Field'),
      ('optional emitters', TX + ':Text')],
     ['emitted values', 'requests seen by the protocol objects'],
     'runtime monitor with protocol-checking proxies, differential against '
     'the original tree',
     'equality of traces and checks of each request')

prop('C28', 'Emitters built from the base class and mixins work as documented',
     'An emitter that a user builds from the base class and the mixins, in '
     'any documented combination, gets calls with and without numbers, '
     'resetting, seeding, items and children right by calling its '
     'superclasses. Resetting a tree resets every emitter in it and gives '
     'random ones the seed of the random parent; seeding a random parent '
     'seeds all random children. Failed uniqueness raises a ValueError that '
     'names the numbers, and the base class alone cannot be instantiated.',
     ['programs', 'histories'],
     'all trees of user-defined emitters, all histories of calls, resets, '
     'seeds and assigned seeds at any node',
     'The tests define a few mock emitters.',
     [('base class', EM + ':Emitter'),
      ('mixins', MX + ':RandomMixin, ItemsMixin, ChildrenMixin, '
       'RandomWithChildrenMixin')],
     ['emitted values', 'resets of every node', 'RNG states'],
     'model-based runtime monitor of the whole tree',
     'every value compared with the model')

prop('C29', 'Deprecated names keep working and always give a warning',
     'Every deprecated name can still be imported or looked up, is listed '
     'with the current names, and each use gives a deprecation warning that '
     'says what to use instead; it can be turned into an error by warning '
     'filters. Current names give no warning and unknown names are attribute '
     'errors. Emitters made from the deprecated base class and sequences that '
     'are set in the deprecated way still work.',
     ['histories', 'programs', 'configurations'],
     'all sequences of lookups in all ways and under all warning filters, '
     'all tables of deprecated names, all histories of emitters made from '
     'the deprecated class',
     'The tests look up each name once.',
     [('lookup', WN + ':get_deprecated_attr'),
      ('tables', TY + ':__getattr__, __dir__'),
      ('tables', INIT + ':__getattr__, __dir__'),
      ('tables', WR + ':__getattr__, __dir__, _deprecated_Wrap'),
      ('setter', FX + ':Sequential.iterator_factory')],
     ['values, warnings and exceptions of lookups'],
     'runtime monitor of recorded warnings and lookups',
     'each lookup in generated sequences')

prop('C30', 'Long runs need constant memory, and lazy sources stay lazy',
     'However many values or documents an emitter, field or schema emits, and '
     'however often it is reset, seeded or given new settings, neither the '
     'memory that it holds nor the work for a call grows with the number of '
     'calls so far. Sequences, ranges and iterators that compute their values '
     'on demand (also endless iterators and ranges of billions of values) are '
     'never expanded: an emitter takes from them only about as much as it '
     'emits.',
     ['histories', 'configurations', 'inputs'],
     'all emitters, fields and schemas, all repeated sequences of calls, '
     'resets and changes of settings, all lengths of sources',
     'The tests make short runs and never look at memory; a cache or a log '
     'that grows gives right values.',
     [('emission', CH + ':Choice.emit_many'),
      ('iterators without storing values', FX + ':Iterative'),
      ('cached value of a field', PR + ':Field.__call__'),
      ('documents', PR + ':Schema.__call__'),
      ('range without values', DT + ':DateOrTimeRange')],
     ['memory allocated and lines executed after hundreds and thousands of '
      'repetitions', 'values taken from sources'],
     'tracemalloc and line-count monitors over long loops; counting sources',
     'growth of memory and work is compared between windows of each run')

prop('C31', 'Errors in supplied parts reach the caller and do no lasting damage',
     'If a source emitter, wrapper function, action, gate, repeat emitter, '
     'iterator or iterator factory raises an error, exactly that error '
     'reaches whoever called the emitter, field or schema. Later calls work '
     'as usual: they give as many values as were asked for, computed from what '
     'the parts give from then on, without anything left over from the failed '
     'call; a field still has the value before as its last value. Errors of '
     'a child in a reset are not hidden, and the next reset is complete.',
     ['fault_sequences', 'histories', 'programs'],
     'all kinds of parents, all positions and types of errors, and all calls '
     'after them',
     'The tests have almost no parts that fail, and never call an emitter '
     'again after an error.',
     [('iterators that failed', FX + ':Iterative.emit, Iterative.emit_many'),
      ('wrappers', WR + ':WrapOne.emit_many, BoundWrapper.__call__'),
      ('words and texts', TX + ':Word.emit_many, Text.emit_many'),
      ('last value', PR + ':Field.__call__'),
      ('resets of children', GR + ':GroupMixin.do_method')],
     ['errors that reach the caller', 'values of later calls',
      'logs of the parts'],
     'fault injection with an identity monitor for errors and log oracles for '
     'all later values',
     'each call after each injected fault is judged')

prop('C32', 'Documents hold together, however their fields depend on each other',
     'In each document, a value, gate or number of values that is copied from '
     'or based on other fields, directly or through chains of such fields, '
     'wrappers, words and texts, is computed from the values that these '
     'fields got in the same document (or, if they were called elsewhere, '
     'from their last values): also if the other fields are hidden, gated '
     'off, have no or several values, were removed from the schema, are '
     'shared with another schema, were called on their own, or were reset.',
     ['programs', 'configurations', 'histories'],
     'all schemas with fields that depend on earlier fields, all sequences of '
     'documents, single calls, resets and changes',
     'The tests have one level of dependence with fixed fields and look at '
     'few documents.',
     [('derived values', FF + ':CopyFields, BasedOnFields'),
      ('last value', PR + ':Field.__call__, Field.previous'),
      ('documents', PR + ':Schema.__call__'),
      ('gates and repeats', PR + ':Field.gate_emitter, Field.repeat_emitter'),
      ('wrappers, words and texts', TX + ':Word.emit_many, Text.emit_many')],
     ['documents', 'values of fields called alone', 'last values'],
     'trace oracle: an independent interpreter of generated schemas runs '
     'alongside the real one',
     'each document and all last values are compared after each step')

prop('C33', 'BoundWrapper calls its function as is, with rng only if asked for',
     'A BoundWrapper passes exactly the arguments that it is given, and the '
     'current random generator of the object that it is bound to as `rng` '
     'exactly if the function has a parameter of that name; it returns or '
     'raises what the function does. `signature` and `wants_rng` describe the '
     'current function, also after `function` or `bound_to` is replaced; '
     'wrapping a wrapper again wraps the function itself and leaves the other '
     'wrapper alone. `try_mock_call` raises TypeError, naming the class of '
     'the object it is bound to, exactly if such a call does not fit; it does '
     'not call a function whose signature is known and uses no random '
     'numbers.',
     ['programs', 'inputs', 'histories'],
     'all callables (functions, methods, partial and decorated ones, classes, '
     'callable objects, built-ins) and parameter lists, all arguments, all '
     'objects that provide random numbers',
     'The tests use a handful of lambdas; parameter lists are endless.',
     [('calls', WR + ':BoundWrapper.__call__'),
      ('mock calls', WR + ':BoundWrapper.try_mock_call'),
      ('function', WR + ':BoundWrapper.function'),
      ('wrappers of wrappers', WR + ':BoundWrapper.__init__')],
     ['arguments that functions receive', 'results and errors',
      'state of the generator', 'attributes'],
     'call monitor: each call is compared with a direct call of the same '
     'recorded callable',
     'each call, mock call and attribute in generated histories')

TRUST = (' No guarantee beyond the executions explored; trusts CPython, the '
         'standard library and the oracle in fxmon/props/{0}.py.')


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p, _, _ in P:
            f.write(json.dumps(p, ensure_ascii=False) + '\n')
    checks = [{
        'property': p['id'],
        'quick_cmd': f'./run.sh {p["id"]} --tier quick',
        'thorough_cmd': f'./run.sh {p["id"]} --tier thorough',
        'evidence_file': f'evidence/{p["id"]}.json',
        'technique': f'runtime monitoring: {method}',
        'level': 'exploration',
        'level_note': note[0].upper() + note[1:] + '.'
        + TRUST.format(p['id'].lower()),
    } for p, method, note in P]
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks,
                   'not_applicable': []}, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
