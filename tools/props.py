TRUST = ' Trusts the small reference interpreter in the harness and the boxing glue which forwards the parser trait.'

prop('P01', 'Ordered choice with explicit backtracking gives the specified outcome',
 'For every composition of tokens, sequences, choices, backtracking wrappers, lookahead, negation, optional, data-dependent continuations and value-transforming wrappers, parsing a complete input gives the value, the amount of input consumed and the success or failure that ordered choice prescribes: an alternative is tried only if all earlier ones failed without committing to any input. A failure counts as committed exactly when input had been accepted before it and no backtracking wrapper undid it, and a backtracking, lookahead or negating parser leaves the input where it was. The same parser value gives the same answer every time it is used.',
 ['programs', 'inputs'],
 'all parser compositions up to a size over every non-repeating combinator and leaf; all input words over a small alphabet up to a length',
 'The tests sample a few dozen grammars with one or two inputs each; commit and backtrack status is a property of every composition of combinators.',
 ['src/parser/mod.rs', 'src/parser/choice.rs', 'src/parser/combinator.rs', 'src/parser/sequence.rs', 'src/parser/token.rs', 'src/error.rs'],
 [('commit status of a result', 'src/error.rs ParseResult'), ('choice resets and tries the next alternative only after an uncommitted failure', 'src/parser/choice.rs'), ('sequence turns a failure after consumed input into a committed one', 'src/parser/sequence.rs'), ('attempt, look_ahead, not_followed_by', 'src/parser/combinator.rs')],
 'exhaustive enumeration of parser terms × inputs on the real code against a reference interpreter',
 'Every term up to the size bound (quick: all operators to size 3, core operators to size 6) is run on every word up to the length bound and compared with the reference in value, end position and commit status.' + TRUST,
 observe=['Parser::parse_stream', 'Parser::parse_stream_partial'])

prop('P02', 'Repetition combinators take exactly the items the grammar prescribes',
 'For every composition using repetition (many, counted, separated, end-separated, left and right chained, until-terminated, escaped, iterated), the items collected, the order in which operators are applied, the place where the input is left and the success or failure are those of the textbook definition: repetition stops at the first item that fails without committing, counts respect their minimum and maximum, a separator without its item or an operator without its operand is an error once it committed, and a committed failure of an item always fails the whole.',
 ['programs', 'inputs'],
 'all compositions up to a size that contain a repetition; all input words over a small alphabet up to a length',
 'The tests try each repetition on a couple of inputs with well-behaved items; items which match empty input, look ahead, backtrack or fail after committing are combinations no test enumerates.',
 ['src/parser/repeat.rs', 'src/parser/sequence.rs', 'src/parser/combinator.rs'],
 [('item iterator', 'src/parser/repeat.rs Iter'), ('separated and chained repetition', 'src/parser/repeat.rs'), ('until, escaped and iterate', 'src/parser/repeat.rs')],
 'exhaustive enumeration of parser terms × inputs on the real code against a reference interpreter',
 'Every term with a repetition up to the size bound (quick: all operators to size 3, core to size 4) is run on every word up to the length bound.' + TRUST,
 observe=['Parser::parse_stream', 'Parser::parse_stream_partial'])

CH_WHY = 'The incremental tests feed a handful of grammars with a handful of partitions; resumption state must be right for every cut of every input under every composition.'
prop('P03', 'Incremental parsing gives the same result however the input is cut into chunks',
 'Feeding a token-level parser its input in pieces, resuming it with its saved state each time it asks for more, gives the same value, consumes the same amount of input and succeeds or fails exactly as parsing the whole input at once, wherever the cuts fall, including empty pieces. The parser asks for more only while more input may follow, never for input it has already been given, and never panics.',
 ['programs', 'inputs', 'schedules'],
 'all token-level parser compositions up to a size, all words up to a length, all subsets of cut positions',
 CH_WHY,
 ['src/parser/mod.rs', 'src/parser/sequence.rs', 'src/parser/repeat.rs', 'src/parser/choice.rs', 'src/parser/combinator.rs', 'src/stream/mod.rs'],
 [('partial state of each combinator', 'src/parser/*.rs PartialState'), ('first and resume modes', 'src/parser/mod.rs ParseMode'), ('decode drives a partial parse', 'src/stream/mod.rs decode')],
 'exhaustive enumeration of parser terms × inputs × chunkings on the real code against one-shot reference semantics',
 'Every chunking of every word for every term up to the bound (quick: all operators to size 3, core to size 4, words to length 4, all 2^5 cut sets).' + TRUST,
 state=[('partial state', 'what a suspended parser remembers', 'src/parser/*.rs')],
 observe=['stream::decode', 'stream::decode_tokio'])

prop('P04', 'Incremental parsing of slices is independent of the chunking',
 'Parsers which hand out slices of the input (fixed ranges, takes, take-while, take-until, searching takes, recognizers, length prefixes) give the same slice, consume the same amount and succeed or fail exactly as on the complete input, wherever the chunk boundaries fall, alone and inside every other combinator, for ASCII and multi-byte text. A slice is never truncated at a chunk boundary and no chunking makes a parser panic.',
 ['programs', 'inputs', 'schedules'],
 'all compositions up to a size containing a slice parser, all words (ASCII and multi-byte) up to a length, all subsets of cut positions',
 CH_WHY,
 ['src/parser/range.rs', 'src/parser/byte.rs', 'src/stream/mod.rs'],
 [('distance remembered across suspensions', 'src/parser/range.rs parse_partial_range'), ('take_until_range, take_fn', 'src/parser/range.rs'), ('take_until_byte(s)', 'src/parser/byte.rs')],
 'exhaustive enumeration of parser terms × inputs × chunkings on the real code against one-shot reference semantics',
 'Every chunking of every word for every term with a slice parser up to the bound (quick: size 3 all operators, size 4 core; words to length 4).' + TRUST,
 observe=['stream::decode', 'stream::decode_tokio'])

prop('P05', 'Decoding one message leaves nothing behind for the next',
 'When one partial state (and optionally one parser value) is used to decode a stream of consecutive messages, each message decodes to the value and length it would have with a fresh parser and a fresh state, for every way the message stream is cut into chunks and whatever the previous messages were. A malformed message after good ones is reported as an error at that message, not earlier and not as a success.',
 ['programs', 'inputs', 'histories', 'schedules'],
 'all parser compositions up to a size, all message streams (words) up to a length, all subsets of cut positions, fresh or persistent parser value',
 'The tests decode at most two or three well-formed messages with one grammar; leftover state only shows after particular histories under particular cuts.',
 ['src/stream/mod.rs', 'src/stream/decoder.rs', 'src/parser/repeat.rs', 'src/parser/sequence.rs', 'src/parser/choice.rs', 'src/parser/combinator.rs'],
 [('state returns to its default when a message is complete', 'src/parser/*.rs'), ('decode', 'src/stream/mod.rs')],
 'exhaustive enumeration of parser terms × message histories × chunkings on the real code against reference semantics',
 'Every history and chunking up to the bound (quick: all operators to size 3, core to size 4, words to length 4).' + TRUST,
 observe=['stream::decode', 'stream::decode_tokio'])


prop('P06', 'A failed parse is reported where the parse could not go on',
 'When parsing fails, the error report carries the position of the farthest input at which the responsible parsers could not continue: among alternatives which all failed the one that got farthest decides, a failure after successful parts is reported where the failing part failed (a literal at its start), and an alternative that succeeds discards the failures of earlier ones. This holds for every composition of combinators, and a failed parse always yields a report and a successful one never does.',
 ['programs', 'inputs'],
 'all parser compositions up to a size over every combinator and leaf, all words up to a length',
 'Error tests pin a few dozen reports of particular grammars; which failure wins depends on the whole nesting of choices, sequences and backtracking wrappers.',
 ['src/stream/easy.rs', 'src/error.rs', 'src/parser/choice.rs', 'src/parser/sequence.rs', 'src/parser/combinator.rs', 'src/parser/repeat.rs'],
 [('farthest error wins when merging', 'src/stream/easy.rs Errors::merge'), ('choice merges the errors of its alternatives', 'src/parser/choice.rs'), ('Tracked offsets in sequences', 'src/parser/sequence.rs, src/error.rs Tracked')],
 'exhaustive enumeration of parser terms × inputs on the real code against a reference farthest-failure computation',
 'Reported position compared for every term and word within the bounds (quick: every operator and leaf to size 3, every operator at size 4, core operators at size 5).' + TRUST,
 observe=['EasyParser::easy_parse'])

prop('P07', 'An error report lists exactly what was expected and found at the failure',
 'An error report lists as expected everything the parsers could have accepted at the reported position (alternatives which failed there, optional and repeated parts which stopped there, and the part that failed), each under its own label where one was given, and nothing that was only acceptable elsewhere; silenced parsers are not listed. It names exactly the token found there, or end of input. Parts may be missing only where a sequence has passed a nested choice, sequence or repetition without consuming (see the known findings).',
 ['programs', 'inputs'],
 'all parser compositions up to a size over the operators that describe themselves, all words up to a length',
 'Error tests pin a few dozen reports; leaked, stale or missing expectations show only under particular nestings of choices, sequences, labels and repetitions.',
 ['src/stream/easy.rs', 'src/error.rs', 'src/parser/choice.rs', 'src/parser/sequence.rs', 'src/parser/combinator.rs', 'src/parser/repeat.rs', 'src/parser/token.rs', 'src/parser/error.rs'],
 [('add_error describes what a parser expects', 'Parser::add_error implementations'), ('which parsers are described after a peek failure', 'src/parser/sequence.rs add_errors'), ('labels', 'src/parser/error.rs')],
 'exhaustive enumeration of parser terms × inputs on the real code against a reference computation of the expected set',
 'Reported expected and unexpected sets compared for every term and word within the bounds (quick: all modelled operators to size 4, core at sizes 5 and 6). Reports of counted and until-terminated repetition are only checked for position (P06).' + TRUST,
 observe=['EasyParser::easy_parse'])

prop('P08', 'Every stream delivers its input faithfully',
 'For text, slices of cloneable or non-cloneable items, and iterators, alone and under any stack of the position, easy-error, state, span, partial, complete and by-reference wrappers: taking tokens and ranges in any order yields exactly the input in order; a range or take-while hands out exactly the tokens it should, borrowed from the input itself and not copied; a predicate sees each token once, up to and including the first it rejects; a failing operation takes nothing and fails as end of input exactly when the input ran out; going back to a saved place restores everything after it. A wrapper changes none of this, and only the partial wrappers make the end of input mean that more may come.',
 ['inputs', 'histories'],
 'all contents over a small alphabet up to a length plus long contents with one distinguished token at each place; all sequences of stream operations up to a depth',
 'The tests take a range or two from short strings; the unrolled scanning loops, wrapper delegation and save/restore matter for every length, place and order of operations.',
 ['src/stream/mod.rs', 'src/stream/position.rs', 'src/stream/state.rs', 'src/stream/span.rs', 'src/stream/easy.rs'],
 [('scanning loops', 'src/stream/mod.rs slice_uncons_while, slice_uncons_while_ref, str_uncons_while'), ('partial and complete wrappers', 'src/stream/mod.rs PartialStream, CompleteStream, MaybePartialStream'), ('commit status of stream operations', 'src/stream/mod.rs uncons, uncons_range, uncons_while, uncons_while1')],
 'exhaustive enumeration of stream operation sequences × contents on the real streams against a list model',
 'Every operation sequence (quick: length 3; thorough: 4) over every content on 47 stream kinds, with position, distance, remaining range, partiality and end of input compared after every operation. Trusts the list model in the harness.',
 state=[('place in the input', 'what is left to take', 'src/stream/*.rs'), ('checkpoints', 'places to go back to', 'ResetStream::Checkpoint')],
 observe=['StreamOnce', 'RangeStreamOnce', 'ResetStream', 'Positioned'])

prop('P09', 'The position is always that of the input consumed so far',
 'Whatever parsers ran before, with whatever backtracking, lookahead, slices and token-wise consumption, and however the input was cut into chunks with the position carried from one to the next, the position of a stream is the line and column obtained by counting through the input consumed so far. The position a parser reads and the position an error reports are such positions too, and using a position-tracking stream never changes what is parsed.',
 ['programs', 'inputs', 'schedules'],
 'all parser compositions up to a size, all words with newlines up to a length, all chunkings',
 'Tests check positions after a few linear parses; a position drifts only after particular combinations of backtracking, ranges and resumption.',
 ['src/stream/position.rs', 'src/stream/mod.rs', 'src/stream/decoder.rs', 'src/parser/token.rs', 'src/parser/range.rs', 'src/stream/easy.rs'],
 [('position is updated for every token and range', 'src/stream/position.rs Stream'), ('line and column', 'src/stream/position.rs SourcePosition'), ('position restored with the input', 'src/stream/position.rs ResetStream')],
 'exhaustive enumeration of parser terms × inputs × chunkings on the real code against counting through the consumed prefix',
 'Position compared after every parse and every chunk for every term and word within the bounds (quick: every operator and leaf to size 3).' + TRUST,
 observe=['Positioned::position', 'parser::token::position'])

prop('P10', 'A buffered stream either replays its input exactly or refuses to go back',
 'Over a source which can be read only once, a buffered stream with room for n tokens behaves exactly like a stream over the whole input as long as nothing goes back by more than n tokens: same tokens, same positions, same parse results. Going back further is an error; it never yields a wrong token, skips input, or lets a parse succeed with a wrong result. End of input, interrupted reads and read errors of the source surface where they occurred and lose no token.',
 ['programs', 'inputs', 'histories', 'faults'],
 'all sequences of token, save and restore operations up to a depth for all lookaheads and input lengths; all read scripts of bytes, interruptions and errors; all parser compositions up to a size',
 'Two tests exercise one lookahead; the ring buffer arithmetic has to be right for every fill level, offset and lookahead.',
 ['src/stream/buffered.rs', 'src/stream/read.rs', 'src/stream/mod.rs'],
 [('ring buffer', 'src/stream/buffered.rs uncons, reset, position'), ('byte reader', 'src/stream/read.rs'), ('iterator stream', 'src/stream/mod.rs IteratorStream')],
 'exhaustive enumeration of operation sequences, read scripts and parser terms on the real stream against a list model',
 'Every operation sequence (quick: length 10) and every token-level term (quick: all operators and leaves to size 3) at lookaheads 0–7.' + TRUST,
 state=[('buffer', 'the last tokens taken from the source', 'src/stream/buffered.rs'), ('offset', 'how far back the stream is', 'src/stream/buffered.rs')],
 observe=['buffered::Stream'])

prop('P11', 'What is parsed depends only on the grammar and the input',
 'A parser gives the same value, consumes the same input and fails or succeeds with the same commitment whichever stream wrapper carries the input, whichever error type the stream uses (informative, minimal or user-chosen), and whichever entry point starts it (parse, easy_parse, parse_stream, parse_with_state, the partial entry points, by reference, boxed, or through an iterator). The same holds when the input arrives in chunks: no wrapper or error type loses the request for more input.',
 ['programs', 'inputs', 'schedules', 'configurations'],
 'all parser compositions up to a size, all words up to a length, all chunkings, sixteen stream and error types, twelve entry points',
 'Every test fixes one stream, one error type and one entry point.',
 ['src/parser/mod.rs', 'src/error.rs', 'src/stream/easy.rs', 'src/stream/read.rs', 'src/stream/state.rs', 'src/stream/span.rs', 'src/stream/mod.rs'],
 [('error types keep the end of input apart', 'src/error.rs, src/stream/easy.rs, src/stream/read.rs'), ('entry points', 'src/parser/mod.rs Parser, EasyParser'), ('conversion between error types', 'into_other, into_other_error')],
 'exhaustive enumeration of parser terms × inputs × chunkings × stream and error types on the real code against the reference',
 'Every term within the bounds (quick: every operator and leaf to size 3) run over every stream and error type and from every entry point.' + TRUST,
 observe=['Parser', 'EasyParser', 'ParseError', 'StreamError'])

prop('P12', 'Decoding from a reader is independent of how the reader delivers its bytes',
 'Decoding messages from a blocking or asynchronous reader (decode!, decode_tokio!, decode_tokio_02!, decode_tokio_03!, decode_futures_03!, in every argument form, with the decoder\'s own buffer or a BufReader) gives for each message the value it has in the whole input, whatever the reads return, however often the reader is not ready, and when a waiting decode is dropped and started again. Afterwards exactly the bytes read but not consumed are left in the buffer and the decoder\'s position is the end of the message. A read error surfaces once, at the current position, and decoding again continues without losing or repeating a byte. A message cut off by the end of input is an error. A message is returned without another read once the bytes read decide it, and the reader is not read again after its end.',
 ['programs', 'inputs', 'schedules', 'faults', 'histories'],
 'all parser compositions up to a size, all inputs up to a length as message streams, all ways to split the input into reads with failing and unready reads anywhere, all five macros with both buffer modes; message and read sizes around buffer sizes',
 'The tests decode one file or a few fixed chunkings per macro; lost or repeated bytes need a particular read boundary, error or cancellation at a particular moment.',
 ['src/stream/decoder.rs', 'src/stream/buf_reader.rs', 'src/stream/mod.rs', 'src/future_ext.rs'],
 [('decode loop', 'src/stream/mod.rs decode!, decode_tokio!, decode_tokio_02!, decode_tokio_03!, decode_futures_03!'), ('buffer and position between calls', 'src/stream/decoder.rs Decoder'), ('filling the buffer', 'src/stream/buf_reader.rs extend_buf_sync, poll_extend_buf')],
 'exhaustive enumeration of parser terms × message streams × read schedules with faults on the real macros against the reference interpreter',
 'Every split into reads of every input for every term (quick: every operator and leaf to size 3), with up to two failing or unready reads anywhere for core terms; six byte protocols over message and read sizes around 8 KiB.' + TRUST,
 state=[('decoder', 'partial state, position, buffer and end-of-input mark', 'src/stream/decoder.rs')],
 observe=['decode!', 'Decoder::buffer', 'Decoder::position', 'BufReader::buffer'])

prop('P13', 'A BufReader loses, repeats and reorders nothing',
 'Through any sequence of reads into buffers of any size, fill and consume calls, decodes without an own buffer, writes, flushes and shutdowns on a BufReader (blocking, tokio 0.2, 0.3 and 1), at any initial capacity and however the underlying reader delivers, fails or is not ready: the bytes handed out are the reader\'s bytes in order, each once; buffer() is exactly what was read and not handed out; the end of input is reported only when the reader reported it; errors and unreadiness lose nothing; the reader is not asked while bytes are buffered; and writes reach the underlying writer unchanged.',
 ['histories', 'schedules', 'faults'],
 'all operation sequences up to a depth × all read schedules of an input up to a length with failing and unready reads anywhere × capacities × interfaces',
 'The tests read ten bytes in one fixed pattern.',
 ['src/stream/buf_reader.rs'],
 [('Read, BufRead, AsyncRead, AsyncBufRead and AsyncWrite', 'src/stream/buf_reader.rs')],
 'exhaustive enumeration of operation sequences × read schedules on the real BufReader against a list model',
 'All operation sequences (quick: length 4) over all read schedules (quick: 4 bytes, up to two failing or unready reads) at capacities 0, 1, 3 and 64 for four interfaces.',
 state=[('buffer', 'bytes read and not handed out', 'src/stream/buf_reader.rs BufReader')],
 observe=['BufReader'])

prop('P14', 'Errors combine lawfully and lose nothing that decides the outcome',
 'The error values a parser builds behave as a set of facts about one position: adding, merging, clearing and setting facts on an informative error gives exactly the listed facts, each once, with the farther of two merged positions winning and equal positions combining regardless of order; converting an error to another position, token, range or error type keeps its facts and its kind; whether an error means that input ended early survives every operation on every error type, also those that keep a single fact. The commit status of results combines as sequencing and choice require, and mapping or converting a result keeps it.',
 ['histories', 'values'],
 'all sequences of error operations up to a depth over a small set of facts and positions, on every error type; all pairs and triples of errors for the merge laws; all commit-status combinations',
 'The tests compare a few rendered messages; the algebra must hold for every history of operations because combinators apply them in every order.',
 ['src/error.rs', 'src/stream/easy.rs', 'src/stream/read.rs'],
 [('set of facts at a position', 'src/stream/easy.rs Errors add_error, merge, set_expected'), ('conversions', 'src/stream/easy.rs into_other, map_position, map_token, map_range'), ('single-fact error types', 'src/error.rs UnexpectedParse, StringStreamError; src/stream/read.rs Error'), ('commit status', 'src/error.rs Commit, ParseResult')],
 'exhaustive enumeration of operation sequences on the real error types against a set model',
 'Every operation sequence (quick: length 3) from every starting error, all pairs and triples for the laws.',
 state=[('error', 'facts and position', 'src/stream/easy.rs Errors')],
 observe=['easy::Errors', 'ParseError', 'StreamError', 'ParseResult', 'Commit'])

prop('P15', 'A failing reader surfaces as that failure and never as the end of input',
 'Parsing from a byte reader through a buffered stream gives the value, extent and outcome of parsing the bytes themselves, however often reads are interrupted. If the reader fails, whatever the parser decides without needing the missing bytes is as if the input went on unknown: nothing is accepted as the end of the input, and a parse that fails because of the failure reports the I/O error itself.',
 ['programs', 'inputs', 'faults'],
 'all token-level parser compositions up to a size; all words up to a length; a read failure after every byte; all patterns of interrupted reads; minimal and informative error types',
 'No test reads from a failing or interrupted reader.',
 ['src/stream/read.rs', 'src/stream/buffered.rs', 'src/parser/mod.rs', 'src/parser/token.rs'],
 [('byte reader', 'src/stream/read.rs Stream, Error'), ('end of input is told apart from failure', 'src/parser/token.rs Eof; src/parser/mod.rs parse_stream')],
 'exhaustive enumeration of parser terms × inputs × read faults on the real code against the reference interpreter',
 'Every term (quick: every operator and leaf to size 3) on every word with the failure after each byte, for both error types.' + TRUST,
 observe=['read::Stream', 'buffered::Stream', 'read::Error'])

prop('P16', 'Character classes, literals and binary numbers accept exactly what they name',
 'Every character and byte class parser accepts exactly the members of its class over the whole of Unicode or all bytes, consuming one element, and names itself in errors. Literals (strings, byte strings, token sequences, ranges, with default or custom comparison) accept exactly the inputs that start with them, commit once an element matched, and wait for more input only while what they have still matches. Binary numbers of every width and byte order decode to the value of their bytes and wait until they are complete.',
 ['inputs', 'values', 'schedules'],
 'all characters and all bytes for every class; all literals and inputs over a small alphabet up to a length, complete and partial; all number widths and byte orders over boundary patterns',
 'The tests try one or two members per class and one literal.',
 ['src/parser/char.rs', 'src/parser/byte.rs', 'src/parser/token.rs', 'src/parser/range.rs'],
 [('classes', 'src/parser/char.rs, src/parser/byte.rs'), ('literals', 'src/parser/token.rs tokens; src/parser/char.rs string; src/parser/byte.rs bytes; src/parser/range.rs range'), ('numbers', 'src/parser/byte.rs num')],
 'exhaustive enumeration of the input domain on the real code against explicit definitions',
 'All 1,112,064 characters and 256 bytes for every class, every literal × input × completeness, 14 number formats × both orders.',
 observe=['parser::char', 'parser::byte', 'byte::num', 'tokens', 'range'])

prop('P17', 'Slice parsers return exactly the specified part of the input, without copying',
 'On every kind of sliceable input (text, bytes, element slices, by reference) the slice parsers return exactly the specified slice of the original buffer: a fixed number, the longest run satisfying a predicate, everything before the first occurrence of a pattern, byte or set of bytes, what a search function decides, what an inner parser consumed, or what a parsed length announces. The returned slice is the input\'s own memory, the input is left right behind it, and with the input cut anywhere the slice and everything else is the same.',
 ['inputs', 'values', 'schedules'],
 'every slice parser over its parameter space × all words up to a length × all cut positions × all sliceable streams, with and without positions',
 'The tests try one slice per parser on one input type; scanning code has word-at-a-time paths and boundary arithmetic that only particular lengths reach.',
 ['src/parser/range.rs', 'src/parser/byte.rs', 'src/stream/mod.rs', 'src/stream/position.rs'],
 [('take, take_while, take_until_range, take_fn, recognize, length_prefix', 'src/parser/range.rs'), ('take_until_byte, take_until_bytes', 'src/parser/byte.rs'), ('uncons_range and uncons_while', 'src/stream/mod.rs')],
 'exhaustive enumeration of parser parameters × inputs × chunkings on the real code against list definitions',
 'Every parameter × word × cut set within the bounds; memory identity of each slice is compared by address.',
 observe=['parser::range', 'parser::byte'])


prop('P18', 'Sequences and choices behave the same at every width and written form',
 'A sequence means the same at every supported number of parts, and whether written as a tuple, a struct or tuple struct with kept and skipped fields, chained or nested either way to any depth, wrapped in a parser function, macro or opaque parser: the same values in the same order, the same input consumed, the same success, failure and commitment, on whole and on chunked input. The same holds for choices as tuples, arrays, slices, macros and chains, and for dispatch on a value. An error report names the place and what was expected there, from all parts and alternatives at that place.',
 ['programs', 'inputs', 'schedules'],
 'every width each form supports × up to two special elements anywhere × all sentences and all their single edits × all single cuts (pairs for short ones); nesting to depth 300',
 'The implementation generates separate resumption and error code per width and form; the tests use a few widths, one form at a time.',
 ['src/parser/sequence.rs', 'src/parser/choice.rs', 'src/parser/combinator.rs', 'src/lib.rs'],
 [('sequence code per width', 'src/parser/sequence.rs tuple_parser!'), ('choice code per width', 'src/parser/choice.rs tuple_choice_parser!, array_choice_parser!'), ('struct_parser!, dispatch!, choice!, parser!, opaque!', 'src/parser/sequence.rs, src/parser/choice.rs, src/parser/combinator.rs, src/lib.rs')],
 'exhaustive enumeration of widths, forms, elements, inputs and cuts on the real code against the reference interpreters',
 'Thirteen sequence forms, seven choice forms and dispatch over all their widths.' + TRUST,
 observe=['Parser::parse_stream', 'stream::decode', 'EasyParser::easy_parse'])

prop('P19', 'Regex parsers return and consume what the regex engine matches',
 'On a complete input the regex parsers agree with the regex engine: matching tests without consuming, find takes everything up to the end of the first match and returns the match, finding many returns all matches in order and consumes up to the end of the last, capturing returns the participating groups of the first or of all matches. No match is an uncommitted failure that consumes nothing (or an empty result for the many forms), and a parse commits exactly if it consumed something.',
 ['programs', 'inputs'],
 'all patterns up to a number of operators × all words up to a length, as text and as bytes, regex by value and by reference, with and without positions',
 'The tests use one pattern on three inputs.',
 ['src/parser/regex.rs'],
 [('regex parsers', 'src/parser/regex.rs Match, Find, FindMany, Captures, CapturesMany')],
 'exhaustive enumeration of patterns × inputs on the real code against direct calls of the regex engine',
 'Every pattern (quick: two operators over six atoms) on every word of up to five characters.',
 observe=['parser::regex'])

prop('P20', 'Recursive grammars are parsed like the language they describe',
 'A grammar whose rules refer to themselves or to each other gives the value, extent, commitment and error position that recursive descent over its definition gives, whichever way the recursion is written (parser! with boxed state, opaque!, a function returning an opaque parser, lazy, factory, a plain function), to any nesting depth. Where the form can be suspended, the same holds for input arriving in pieces cut anywhere, however many levels of the recursion are open at the cut.',
 ['programs', 'inputs', 'histories'],
 'all grammars of one or two non-left-recursive rules up to a size × all words × all chunkings; four recursive languages × all their viable words up to a length × chunkings; nesting to a fixed depth',
 'The tests parse a handful of JSON and expression documents whole, and a few in a sample of chunkings.',
 ['src/parser/mod.rs', 'src/parser/combinator.rs', 'src/parser/choice.rs', 'src/parser/sequence.rs', 'src/parser/repeat.rs'],
 [('boxed state', 'src/parser/combinator.rs any_partial_state, AnySendSyncPartialState'), ('recursive parsers', 'src/lib.rs parser!, src/parser/combinator.rs opaque!, lazy, factory')],
 'exhaustive enumeration of recursive grammars × inputs × chunkings on the real code against recursive descent',
 'Rules of up to four operators over all combinators, five over a core set; JSON, arithmetic, lists and statements up to 7 or 8 characters.',
 observe=['parser!', 'parser::combinator::opaque', 'combine::stream::decode'])
prop('P21', 'Semantic actions run once for each part parsed, in input order',
 'The functions given to map, map_input, and_then, flat_map, from_str and then are called exactly for the parts that were parsed, in the order in which they were parsed, with the values parsed, and not again. If the input arrives in pieces, nothing that consumed its part is run again when the parse resumes, except inside parsers which start over by nature: backtracking, lookahead, negation, recognizers, count, right-associative chains, escaped, searches for an end, iteration and stateless wrappers.',
 ['programs', 'inputs', 'histories'],
 'all compositions of all combinators up to a size × all words × all chunkings, recording every call',
 'The tests use actions without side effects, so they cannot see one that runs twice or in another order.',
 ['src/parser/combinator.rs', 'src/parser/sequence.rs', 'src/parser/repeat.rs', 'src/parser/choice.rs'],
 [('action parsers', 'src/parser/combinator.rs Map, MapInput, AndThen, FlatMap'), ('state kept over suspension', 'src/parser/sequence.rs, src/parser/repeat.rs')],
 'exhaustive enumeration of compositions × inputs × chunkings on the real code against the record of a reference interpreter',
 'Up to size 3 over everything, 4 over all operators, 6 over core operators.',
 observe=['combine::Parser::map', 'combine::stream::decode'])

prop('P22', 'The report of a failure does not depend on how a parser is started or fed',
 'A failing parse reports the same position and the same facts in the same order whichever way it is started: parse, easy_parse, parse_with_state, the partial and committed entry points, decode, by reference, boxed, as a trait object, or by parse_lazy (or its partial forms) completed by add_error as their contract says (except for the listed findings about an attempt, or a factory within lazy, which is itself what is started), and with the state, position, easy and by-reference wrappers in any order. If the input arrives in pieces the report has the position and the expectations and messages it has for the whole input, wherever the cuts fall (except for the listed findings about refused values).',
 ['programs', 'inputs', 'histories'],
 'all compositions of all combinators up to a size × all words × 18 ways to start them, × all chunkings',
 'The tests look at reports of parse and easy_parse on whole input only.',
 ['src/parser/mod.rs', 'src/parser/combinator.rs', 'src/parser/sequence.rs', 'src/parser/choice.rs', 'src/parser/repeat.rs', 'src/stream/mod.rs'],
 [('entry points', 'src/parser/mod.rs Parser::parse*, ParseMode::parse_committed'), ('delegated errors', 'src/lib.rs forward_parser!, src/parser/mod.rs forward_deref!, src/parser/combinator.rs'), ('decode', 'src/stream/mod.rs decode')],
 'exhaustive enumeration of compositions × inputs × entry points × chunkings on the real code against the report of parse_stream',
 'Size 3 over everything on words of up to three characters, size 5 over core operators.' + TRUST,
 observe=['Parser::parse_stream', 'EasyParser::easy_parse', 'combine::stream::decode'])

prop('P23', 'The span of an error covers the spanned part which failed',
 'When a parser wrapped in spanned fails on a stream which reports errors by span, the span of the error starts where the innermost failing spanned part started and ends where the input stood when it failed, whatever that part is, after a prefix, nested in another spanned part, wrapped twice, as an item of a repetition, followed by another part, or an alternative. The span starts at the same place however the input is cut into chunks. Apart from its span the error, and every success, is the same as without the wrappers.',
 ['programs', 'inputs', 'histories'],
 'all compositions of all combinators up to a size × nine ways to place the spanned parts × all words × all chunkings',
 'The tests look at the spans of three errors on whole input.',
 ['src/parser/combinator.rs', 'src/stream/span.rs'],
 [('spanned parsers', 'src/parser/combinator.rs Spanned'), ('span streams', 'src/stream/span.rs Stream, Span')],
 'exhaustive enumeration of compositions × inputs × chunkings on the real code against the same parse without spans',
 'Up to size 3 over everything, whole on words of up to four characters, chunked up to three.' + TRUST,
 observe=['parser::combinator::spanned', 'combine::stream::span::Stream'])

prop('P24', 'A printed report says everything in it, in the documented form',
 'The text of an informative error names the place, then one line for each unexpected item, then one line listing everything that was expected separated by commas and a final "or", then one line for each message or foreign error, in the order in which they were recorded; tokens and ranges are quoted and descriptions are not. The same holds after positions, tokens or ranges were mapped and through the decoder error. Nothing expected is listed twice. The minimal error types, reader and decoder errors print what happened.',
 ['programs', 'inputs'],
 'all lists of up to 4 entries of 13 kinds and up to 8 of 4 kinds; the reports of all compositions up to a size on all words',
 'The tests print a few particular reports.',
 ['src/stream/easy.rs', 'src/error.rs', 'src/stream/read.rs', 'src/stream/decoder.rs', 'src/stream/position.rs'],
 [('report text', 'src/stream/easy.rs Error::fmt_errors, Errors, Info'), ('other texts', 'src/error.rs StringStreamError, UnexpectedParse, src/stream/read.rs, src/stream/decoder.rs')],
 'exhaustive enumeration of reports and of parsers × inputs on the real code against a model of the text',
 'Lists of entries (quick: 30941 and 87381), size 3 over everything.' + TRUST,
 observe=['easy::Errors as Display'])
