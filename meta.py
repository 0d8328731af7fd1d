"""Single source of properties.jsonl and MANIFEST.json (tools/gen.py writes both)."""
I, H, F, C, S_ = 'inputs', 'histories', 'fault_sequences', 'configurations', 'schedules'
P = {}


def prop(id, title, statement, over, text, why, files, mech, note=None, level='proof', state=None):
    P[id] = dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': text}, why_tests_cant=why,
                 anchors={'files': files, 'mechanism': mech}, note=note, level=level)


prop('C01', 'Dynamic array keeps its elements',
     'A dynamic array behaves as a sequence: append adds exactly the given elements at the end, remove deletes exactly the last or the named ones, and every other element keeps its value through every growth. The reserved capacity always covers the length, and a failed allocation reports an error and leaves the array as it was.',
     [I, H, F], 'every element size, length, request and allocation outcome', 'testsuite/array pushes a fixed number of elements once; no allocation failure, no large request is tried',
     ['src/array.c', 'include/bfdev/array.h'], ['array_resize / bfdev_array_push / pop / append / reserve', 'index + request growth arithmetic'])
prop('C02', 'FIFO delivers what was put in, in order, once',
     'A FIFO behaves as a bounded queue: elements leave in the order they entered, none is lost, repeated or altered, an insertion is cut to the free room and a removal to what is queued. In record mode every record leaves with the length and content it was inserted with, and one that does not fit is refused whole.',
     [I, H], 'every position of the free-running indices including wrap-around of the machine word, every power-of-two capacity to 2^32, every element size and request length', 'testsuite/examples push a few bytes from index 0; wrap of storage or of the index word and record mode are never reached',
     ['src/fifo.c', 'include/bfdev/fifo.h'], ['FIFO_GENERIC_COPY', 'in/out free running indices masked on use', 'record length prefix'])
prop('C03', 'Ring buffer keeps the newest elements',
     'A ring buffer always accepts new elements; when full it drops exactly as many of the oldest as needed, and what remains is delivered in insertion order, unaltered. In record mode whole records are evicted, oldest first, and no more than needed.',
     [I, H], 'every index position, power-of-two capacity to 2^32, element size and request length', 'the examples overwrite a byte ring once from position 0',
     ['src/ringbuf.c', 'include/bfdev/ringbuf.h'], ['bfdev_ringbuf_in_flat overflow adjustment', 'record eviction loop'])
prop('C04', 'Linked list operations and list sort',
     'Every operation of the doubly linked list (add, delete, replace, move, swap, splice) yields exactly the sequence its description promises and keeps forward and backward links mirrored. Sorting a list returns the same nodes, ordered by the comparator, with equal nodes in their original order.',
     [I, H], 'every list length and node position; every comparator that is a total preorder', 'the tests walk short fixed lists and sort random lists without checking stability or backward links on every operation',
     ['include/bfdev/list.h', 'src/list-sort.c', 'src/list-debug.c'], ['bfdev_list_add/del/splice', 'bfdev_list_sort merge'])
prop('C05', 'Hash lists, single lists and hash tables keep their nodes',
     'Inserting at the head, before or behind a node, deleting, replacing and moving in a hash list or singly linked list change exactly the named node and keep the links consistent. A hash table built on them finds a node exactly when it was added under that key and not removed.',
     [I, H], 'every chain length and node position', 'tests iterate fixed chains',
     ['include/bfdev/hlist.h', 'include/bfdev/slist.h', 'include/bfdev/hashtbl.h'], ['pprev back links', 'slist walk for deletion'])
prop('C06', 'Red-black tree stays ordered and balanced',
     'After any sequence of insertions, erasures and replacements the tree holds exactly the inserted and not erased nodes, in-order traversal yields them in comparator order, and first, last, next and previous agree with that order. No path from the root is more than twice as long as another, and no red node has a red child.',
     [I, H], 'every tree shape and key set', 'tests insert random keys and check order only, with assertions off',
     ['src/rbtree.c', 'include/bfdev/rbtree.h'], ['rbtree_insert fixup', 'rbtree_erase fixup', 'rotate helpers'])
prop('C07', 'Heap root is always the extreme element',
     'After any sequence of insertions and erasures every node of the heap orders before its children, so that the root is the extreme element, and the heap holds exactly the nodes inserted and not erased in a complete binary tree. Lookup by position and level-order traversal return the node at that position of the tree.',
     [I, H], 'every heap size and comparator that is a total preorder', 'the test inserts and deletes random nodes in one order only',
     ['src/heap.c', 'include/bfdev/heap.h'], ['heap_parent via node count', 'sift up/down swap'])
prop('C08', 'B-tree maps each key to its value',
     'A B-tree behaves as an ordered map: lookup returns exactly the value last stored under the key, removal returns and forgets it, and traversal visits the keys in order. A failed allocation reports an error without losing stored keys.',
     [I, H, F], 'every key set, order of operations and allocation outcome', 'one random insertion and removal run',
     ['src/btree.c', 'src/btree-utils.c', 'include/bfdev/btree.h'], ['btree_insert_level', 'btree_remove_level rebalance'])
prop('C09', 'Radix tree maps each index to its value',
     'A radix array behaves as a map from index to value: a slot keeps what was stored until it is freed, other indices are not affected, and next and previous find the neighbouring stored index. A failed allocation is reported and changes nothing stored.',
     [I, H, F], 'every index of the machine word, every history and allocation outcome', 'a sequence of small consecutive indices',
     ['src/radix.c', 'include/bfdev/radix.h'], ['radix_extend', 'radix level shift arithmetic'])
prop('C10', 'Skip list is an ordered set',
     'A skip list finds a key exactly when an element comparing equal was inserted and not deleted, and its bottom level holds the elements in order. A failed allocation is reported and leaves the list as it was.',
     [I, H, F], 'every history, random level choice and allocation outcome', 'one run of random insertions with one lookup pass',
     ['src/skiplist.c', 'include/bfdev/skiplist.h'], ['skiplist_find back vector', 'bfdev_skiplist_insert'])
prop('C11', 'Hash map finds exactly what was stored',
     'A hash map finds an element exactly when one with an equal key was inserted and not deleted, through every growth and shrink of the table, and counts its elements exactly. A failed allocation is reported and loses nothing.',
     [I, H, F], 'every history, hash function and allocation outcome', 'random insert and lookup with one hash; no failing allocation',
     ['src/hashmap.c', 'include/bfdev/hashmap.h'], ['hashmap_rehash', 'capacity doubling/halving'])
prop('C12', 'Bitmap operations act on exactly the named bits',
     'Every bitmap operation (logic, shift, compare, subset, weight, set and clear of a range) computes on the first nbits bits exactly the mathematical result on that set of bits, and changes no bit outside the range it names.',
     [I], 'every bitmap length, range and content', 'fixed 64/128 bit patterns',
     ['src/bitmap.c', 'include/bfdev/bitmap.h', 'include/bfdev/bitmap-comp.h'], ['partial last word masks', 'BFDEV_BITMAP_LAST'])
prop('C13', 'Bit searches return the first matching bit',
     'Finding the first, last, next or previous set, clear or combined bit returns the lowest (or highest) matching position within the size, or the size when there is none.',
     [I], 'every bitmap, size and starting position', 'a few fixed bitmaps',
     ['src/bitwalk.c', 'include/bfdev/bitwalk.h', 'include/bfdev/bitwalk-comp.h'], ['first-word start mask', 'tail clamp'])
prop('C14', 'Bit arithmetic primitives match their definition',
     'Population count, find first/last set, integer logarithm, power-of-two rounding, bit reversal, byte swap and endian conversion, rotation, and BCD conversion return the mathematically defined value for every argument.',
     [I], 'every argument of every width', 'tests sample a handful of values',
     ['include/bfdev/bitops.h', 'include/bfdev/log2.h', 'include/bfdev/bitrev.h', 'include/bfdev/popcount.h', 'include/bfdev/swab.h', 'src/bitrev.c', 'src/popcount.c', 'src/bcd.c', 'arch/generic/include'], ['table driven and shift-and-mask implementations'])
prop('C15', 'Double-word arithmetic is exact',
     'Double-word addition, subtraction, multiplication, shifts and division produce the exact double-word result; division returns quotient and remainder with remainder below the divisor.',
     [I], 'every operand', 'no test covers it',
     ['include/bfdev/dword.h', 'src/dword.c'], ['schoolbook udivd with normalisation'])
prop('C16', 'Multi-precision integer arithmetic is exact',
     'Multi-precision addition, subtraction, multiplication, division with remainder, shifts, logic, comparison and conversion give the exact mathematical result for operands of every length and sign. A failed allocation is reported.',
     [I, F], 'every operand length, digit pattern and sign', 'one factorial/pi style demonstration',
     ['src/mpi.c', 'include/bfdev/mpi.h'], ['mpa_add/sub/muli carry chains', 'mpi_div'])
prop('C17', 'Text encodings round-trip and match their standard',
     'Base64, Base32 and Ascii85 encoding produce exactly the standard text (length as announced, alphabet, padding) and decoding an encoded buffer returns the original bytes. Neither direction reads or writes outside the announced buffers.',
     [I], 'every input length and content', 'fixed vectors of a few lengths',
     ['src/crypto/base64.c', 'src/crypto/base32.c', 'src/crypto/ascii85.c', 'include/bfdev/base64.h', 'include/bfdev/base32.h', 'include/bfdev/ascii85.h'], ['group loops and padding tails'])
prop('C18', 'CRC equals polynomial division',
     'Each CRC function returns the remainder of its standard polynomial for every buffer, and computing over a buffer in pieces, feeding the result forward, equals computing over it at once.',
     [I], 'every buffer content, length, starting value and split', 'fixed vectors',
     ['src/crypto/crc*.c', 'include/bfdev/crc.h'], ['generated tables and byte-wise update'])
prop('C19', 'Hash digests match their standard for any chunking',
     'MD5, SHA-1 and SHA-2 digests equal the standard digest of the message, whatever its length and however it is split over update calls.',
     [I, H], 'every message and every split into updates', 'few vectors fed in one update',
     ['src/crypto/md5.c', 'src/crypto/sha1.c', 'src/crypto/sha2.c', 'include/bfdev/crypto'], ['block buffering', 'length padding', 'compression rounds'])
prop('C20', 'ARC4 keystream is exact and self-inverse',
     'ARC4 output equals the standard keystream XOR the input for every key and data, continues correctly over split calls, and applying it twice with the same key restores the data.',
     [I, H], 'every key length, data length and split', 'one round trip',
     ['src/crypto/arc4.c', 'include/bfdev/arc4.h'], ['key schedule', 'index wrap'])
prop('C21', 'Memory pool allocations never overlap',
     'Blocks handed out by the memory pool lie inside the pool, are large enough, and never overlap while in use; freeing makes the room available again and a reallocated block keeps its content. A request that cannot be met returns nothing and disturbs nothing.',
     [I, H], 'every history of allocations, frees and reallocations with every request size', 'a handful of allocations of one size',
     ['src/memalloc.c', 'include/bfdev/memalloc.h'], ['chunk split/merge', 'usize bookkeeping'])
prop('C22', 'Allocator front end and fixed pool honour their contract',
     'Array allocation refuses products that overflow instead of returning a short block, zeroed allocation is zeroed, custom allocators are called with the right size, and the fixed allocation pool hands out properly aligned, disjoint blocks within its bounds or nothing.',
     [I, H], 'every size, count, alignment and pool state', 'simple allocations',
     ['src/allocator.c', 'src/allocpool.c', 'include/bfdev/allocator.h', 'include/bfdev/allocpool.h'], ['overflow checked multiplication', 'pool watermark'])
prop('C23', 'Sort sorts and binary search finds',
     'Sorting an array leaves a permutation of its elements in comparator order for any element size, and binary search over a sorted array returns an equal element exactly when there is one.',
     [I], 'every array length, element size and total preorder', 'one random array of words',
     ['src/sort.c', 'src/bsearch.c', 'include/bfdev/sort.h', 'include/bfdev/bsearch.h'], ['heap sort sift loops', 'interval halving'])
prop('C24', 'Edit distance equals its definition',
     'The weighted edit distance of two strings equals the cheapest sequence of the weighted edits turning one into the other, and a failed allocation is reported.',
     [I, F], 'every pair of strings and weights', 'a few word pairs',
     ['src/levenshtein.c', 'include/bfdev/levenshtein.h'], ['three-row dynamic programme'])
prop('C25', 'Text search finds exactly the matches',
     'Every text search algorithm returns the first occurrence of the pattern at or after the current position and nothing else, and all algorithms agree. They read only the blocks the text source returned.',
     [I, H], 'every pattern, text and split of the text into blocks', 'fixed English sample',
     ['src/textsearch', 'include/bfdev/textsearch.h'], ['shift tables', 'partial match state'])
prop('C26', 'Matrix operations follow linear algebra',
     'Matrix sum, difference, product, transpose, copy and import place in every cell the defined combination of the operands (also when the result replaces an operand), a cell is found by its row and column exactly when it exists, shape mismatches are refused, and a refused operation changes nothing.',
     [I, F], 'every shape and content', 'one small example',
     ['src/matrix.c', 'include/bfdev/matrix.h'], ['row/column index arithmetic'])
prop('C27', 'Rate limits are never exceeded',
     'A rate limiter lets at most its burst pass per interval, and a token bucket never grants more than its capacity plus what its rate has refilled since; both grant when there is room, whatever the time steps.',
     [I, H], 'every sequence of times and requests', 'none with controlled time',
     ['src/ratelimit.c', 'src/tokenbucket.c'], ['interval reset', 'refill arithmetic'])
prop('C28', 'Reference counts are exact and release once',
     'Every reference count operation changes the count by exactly its operand in one atomic step and reports the previous count where it reports one; whatever the schedule, the final release is reported exactly once, and the conditional increments never revive a count from zero, refusing exactly when it is zero.',
     [I, H], 'every counter value and operand', 'small counts',
     ['src/refcount.c', 'include/bfdev/refcount.h', 'include/bfdev/atomic.h'], ['saturation checks around atomic add/sub'])
prop('C29', 'Cache keeps the entries its policy promises',
     'A cache finds a tag exactly while it is held, never holds more than its capacity, never evicts an entry in use, and replaces the least recently (or least frequently) used entry first.',
     [I, H], 'every history of gets, puts, commits and removals', 'one mixed run',
     ['src/cache', 'include/bfdev/cache.h'], ['LRU/LFU lists', 'pending and commit lists'])
prop('C30', 'Bounded formatting never overruns its buffer',
     'Bounded formatting writes at most the given size including the terminator, always terminates a non-empty buffer, and returns the number of characters stored; parsing an argument string yields exactly its words.',
     [I], 'every size, format result and argument string', 'a few strings',
     ['src/scnprintf.c', 'src/argv.c', 'include/bfdev/argv.h'], ['size clamp', 'word splitter'])
prop('C31', 'State machine takes exactly the declared transitions',
     'Feeding an event to a state machine takes the first transition whose event and guard match, searching the parents of the state, runs the exit, action and entry callbacks in order, and reports errors and final states as declared; an event without a transition leaves the state.',
     [I, H], 'every transition table, event and history', 'one door example',
     ['src/fsm.c', 'include/bfdev/fsm.h'], ['fsm transition lookup and stack'])
prop('C32', 'Notifier chains and index lists stay ordered',
     'A notifier chain calls every registered handler once, in priority order, until one stops it, and registration and removal affect only the named handler. An index list keeps its nodes sorted with runs of equal nodes grouped.',
     [I, H], 'every chain, priority set and handler result', 'short fixed chains',
     ['src/notifier.c', 'src/ilist.c', 'include/bfdev/ilist.h', 'include/bfdev/notifier.h'], ['ordered insertion', 'call budget'])
prop('C33', 'Bloom filter never forgets and segment tree answers exactly',
     'A Bloom filter reports present every value that was inserted since it was last flushed, and a segment tree returns for every range the reduction of exactly its elements after any sequence of updates.',
     [I, H], 'every value set, hash function, range and history', 'one fill and query',
     ['src/bloom.c', 'src/segtree.c', 'include/bfdev/bloom.h', 'include/bfdev/segtree.h'], ['bit index derivation', 'tree recursion'])
