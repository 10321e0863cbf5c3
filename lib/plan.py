"""Which harnesses decide which property, with what bounds and assumptions."""
import json, os, re

CRATE = {'h_list': 'model', 'h_hash': 'model', 'h_btree': 'model', 'h_arr': 'array',
         'h_stack': 'stack', 'h_stack_arr': 'starr', 'h_pat': 'pat'}
COST = json.load(open(os.path.join(os.path.dirname(__file__), 'cost.json')))

ASSUME = [
    'Kani 0.68 / CBMC 6.11 / CaDiCaL and the Rust compiler are trusted; the encoding is of the dev profile (overflow checks and debug assertions on)',
    "memory-safety checks are off: the crate has no unsafe code",
    'allocation does not fail',
    'results hold for the instantiations and bounds listed, not beyond',
]
MODEL = ['VecDeque, BTreeMap and HashMap are replaced by fixed-capacity array models (mc/) of their documented behaviour; '
         'exceeding the capacity is an assertion failure; vec_entry is a copy of the published source over that model']
HAVOC = ['states of three and more entries are injected through the user-supplied collection and summary when the third entry is inserted '
         '(reached by plain insertions when a counterexample is replayed); the sub-trees, summary and collection are reference implementations '
         'of the public traits (harness/src/uni.rs)']
B_TREE = ('generic Tree: every content of a 16-key universe (two 2-bit digits; components over 2-bit digits), values u8 and (), every key; '
          'u64keys: 64 keys of two 3-bit digits, key-only; thorough adds 256 keys of two 4-bit digits. ')
B_SET = 'ByteSet: any 256-bit content (sparse: up to 16 arbitrary positions; dense: all but 8), any byte. '
B_MAP = 'ByteMap over a reference list: up to 4 arbitrary bytes (sparse), or a dense content with 252 and more bytes (thorough), any byte. '
B_COLL = ('collections: up to 4 keys with arbitrary sub-trees of 4 slots (2 keys where the collection has 16 or 256 slots), any key, '
          'one operation; two in a row for the small ones. ')
B_LIST = 'lists: 1 to 4 elements, any position, one operation, and two in a row. '
B_BT = 'BTreeMap: up to 3 entries, any u8 (and i32) key, one operation; thorough: two, and histories of 4. '
B_KEY = 'keys: all values of u8..u128, i8..i128 halves as supported, U2, U4, [T; 2..8] and [u8; 16]. '
B_STACK = ('assembled trees: one arbitrary entry followed by 1 to 4 mutations with arbitrary keys and values (for the 256-slot arrays the high bytes '
           'follow fixed patterns beyond one mutation); and 4 or 6 entries under fixed keys in several clusters with arbitrary values, followed '
           'by up to 3 mutations with arbitrary arguments, then every query. ')

# (regex, tier): q = quick and thorough, t = thorough only
T16, T64, T256 = 'h_tree::u16keys', 'h_tree::u64keys', 'h_tree::u256keys'


def trees(ops, chain=(), heavy=True):
    """The given operations over every implementation of a tree."""
    o = '(' + '|'.join(ops) + ')'
    r = [(f'{T16}::{o}', 'q'), (f'{T64}::{o}', 'q' if heavy else 't'), (f'{T256}::{o}', 't'),
         (f'h_set::{o}', 'q'), (f'h_map::sparse::{o}', 'q'), (f'h_map::dense::{o}', 't'),
         (f'h_box::tree::{o}', 'q'), (f'h_box::{o}', 'q'), (f'h_sized::{o}', 'q'),
         (f'h_btree::byte::{o}', 'q'), (f'h_btree::signed::{o}', 't')]
    if chain:
        c = '(' + '|'.join(chain) + ')'
        r += [(f'{T16}::chain::{c}', 'q'), (f'{T64}::chain::{c}', 't'), (f'{T256}::chain::{c}', 't'),
              (f'h_sized::chain::{c}', 'q'), (f'h_box::chain::{c}', 'q'), (f'h_btree::byte::chain::{c}', 't')]
    return r


KEYS = [('h_key::.*', 'q'), ('h_arr::.*', 'q')]
SMALLCOLL = [('h_coll::(boxed4|generic4|generic16|boxed)::[a-z_]+', 'q'), ('h_hash::(own|nibble)::[a-z_]+', 'q'),
             ('h_map::coll::.*', 'q'), ('h_list::.*::(get|insert|remove|maybe_remove|get_mut)', 'q')]
BIGCOLL = [('h_coll::bytes::(insert_key|remove_key|get)', 'q'), ('h_coll::full::.*', 'q'), ('h_coll::.*', 't'), ('h_hash::.*', 't'), ('h_map::coll_dense::(create|get)', 't')]


def only(names, groups):
    """Those of the groups whose operation is one of the names."""
    return [(f'(?=.*::({names})$)' + r, t) for r, t in groups]


PLAN = {
    'C01': dict(
        sel=trees(['find', 'from_monad', 'insert_f', 'remove_f', 'remove_min_f', 'remove_max_f'],
                  ['insert_any_f', 'remove_any_f', 'history_f']) + KEYS
        + only('create|get|insert_key|insert|maybe_remove_key', SMALLCOLL) + [('h_coll::.*', 't'), ('h_hash::.*', 't'), ('h_stack::.*_f', 't')]
        + [('h_coll::(bytes|signed)::insert_key', 'q'), ('h_stack::(hash16|signed|m16e?)::ins', 'q')],
        bounds=B_TREE + B_SET + B_MAP + B_BT + B_COLL + B_LIST + B_KEY, assume=MODEL + HAVOC,
        explain='The oracle is the mathematical map; lookups with every key follow each insertion and removal, and each pair of them.'),
    'C02': dict(
        sel=trees(['order', 'insert_o', 'remove_o', 'remove_min_o', 'remove_max_o'], ['insert_any_o', 'remove_min_any_o', 'remove_max_any_o'])
        + [('h_key::split::.*', 'q'), ('h_arr::.*', 'q')],
        bounds=B_TREE + B_SET + B_MAP + B_BT + B_KEY, assume=MODEL + HAVOC,
        explain='For every query key q and every witness key w: nothing stored lies between q and the answer, or beyond the extremes.'),
    'C03': dict(
        sel=trees(['remove_f', 'remove_o', 'remove_min_f', 'remove_max_f', 'remove_min_o', 'remove_max_o'],
                  ['remove_any_f', 'remove_min_any_f', 'remove_max_any_f', 'remove_any_o'])
        + only('remove_key|maybe_remove_key|remove|maybe_remove', SMALLCOLL) + [('h_coll::full::remove', 'q'), ('h_key::split::.*', 'q'), ('h_stack::.*', 't'), ('h_pat::.*', 't')],
        bounds=B_TREE + B_SET + B_MAP + B_BT + B_COLL + B_LIST, assume=MODEL + HAVOC,
        explain='Removal by key and of either end, the result and all later queries, including a second arbitrary mutation.'),
    'C04': dict(
        sel=trees(['find_mut', 'pred_mut', 'succ_mut', 'min_mut', 'max_mut']) + only('get_mut', SMALLCOLL) + [(f'{T16}::forms::.*', 'q')],
        bounds=B_TREE + B_SET + B_MAP + B_BT + B_COLL, assume=MODEL + HAVOC,
        explain='The mutable query selects what the shared one must, an arbitrary value is written, and every key is looked up again.'),
    'C05': dict(
        sel=trees(['monad', 'from_monad']) + [('h_sized::(len|many)::.*', 'q'), ('h_box::bounds', 'q')],
        bounds=B_TREE + B_SET + B_MAP + B_BT, assume=MODEL + HAVOC,
        explain='Single-element tests, conversions and size bounds against the exact count.'),
    'C06': dict(sel=[('h_set::.*', 'q')], bounds=B_SET + 'history: two mutations from a single byte.', assume=[],
                explain='Every operation of the byte set on an arbitrary set and an arbitrary byte.'),
    'C07': dict(sel=[('h_map::sparse::.*', 'q'), ('h_list::values::.*', 'q'), ('h_map::dense::(find|order|.*_mut|monad|from_monad|insert_f|remove_f|remove_min_f|remove_max_f)', 'q'),
                     ('h_map::dense::.*', 't'), ('h_stack::m8::.*', 't')],
                bounds=B_MAP + B_LIST, assume=['the value list of the byte map is a reference list with tagged values; the real list is checked separately (C18)'] + MODEL,
                explain='Every operation of the byte map; each value is tagged with its key.'),
    'C08': dict(sel=[('h_key::split::.*', 'q'), ('h_arr::.*', 'q'), ('h_key::small::u.::halves', 'q'), ('h_key::small::between::byte_halves', 'q')],
                bounds=B_KEY + 'No other bound: loop-free code decided for all values.', assume=['array keys of three and more elements: sub-array patterns are rewritten into equivalent calls (mc/veb-sub) because Kani 0.68 cannot compile them'],
                explain='Split/join round trips both ways, order, and by-reference against by-value splitting.'),
    'C09': dict(sel=[('h_key::idx::.*', 'q'), ('h_coll::(boxed4|generic4|generic16)::[a-z_]+', 'q'), ('h_coll::signed::(insert_key|get)', 'q'), ('h_coll::bytes::(insert_key|get)', 'q'), ('h_coll::(bytes|signed)::.*', 't'), ('h_coll::full::.*', 'q'), ('h_stack::m16e?::ins', 'q')],
                bounds='All values of every indexable key type; array collections of 4, 16 and 256 slots with up to 4 keys, and all 256 slots in use.', assume=[],
                explain='Index below the cardinality and injective for all pairs of keys; collections built on it keep sub-trees apart.'),
    'C10': dict(sel=SMALLCOLL + BIGCOLL + [('h_coll::(boxed4|generic4)::chain::.*', 'q'), ('h_hash::byte::.*', 'q'), ('h_list::trees::.*', 'q')],
                bounds=B_COLL + B_LIST, assume=['sub-trees are reference sets of four 2-bit keys'] + MODEL,
                explain='The contract of a sub-tree collection against an association list.'),
    'C11': dict(sel=[('h_sized::.*', 'q')], bounds='Wrapped trees: sets of 2-bit keys with values (all contents) and a wrapped tree with loose bounds; one and two mutations, histories of three.',
                assume=[], explain='Length and bounds after every mutation, and the full tree contract of the wrapper.'),
    'C12': dict(sel=[('h_iter::order::(leaf8|leaf16|restart|tree|bytes|long_front|long_back)', 'q'), ('h_iter::order::.*', 't'), (f'{T16}::order', 'q')],
                bounds='Trees of up to 16 keys, any interleaving of 6 front/back steps; complete traversals of trees of up to 8 keys, of 260 keys with arbitrary last steps, restarts.',
                assume=['the iterated tree is a reference set (leaf*), the generic Tree (tree) or a ByteSet (bytes)'],
                explain='Front and back steps against the ordered content.'),
    'C13': dict(sel=[('h_iter::hint::.*', 'q'), ('h_iter::order::long_(front|back)', 'q')], bounds='Trees of up to 16 keys, size bounds off by any amount, any interleaving of up to 6 steps; a tree of 260 keys with arbitrary last steps.',
                assume=[], explain='Size hints at every point of the interleaving.'),
    'C14': dict(sel=[('h_box::.*', 'q'), ('h_coll::(boxed|boxed_own)::.*', 'q')], bounds='Boxed reference sets and boxed generic trees (16 keys), all contents; boxed collections with up to 4 keys.',
                assume=HAVOC, explain='The full tree and collection contracts through Box.'),
    'C15': dict(sel=[('h_btree::byte::[a-z_]+', 'q'), ('h_btree::signed::(find|order|insert_f|remove_f|monad|pred_mut|succ_mut)', 'q'), ('h_btree::byte::chain::(insert_any_f|history_.)', 'q'), ('h_btree::.*', 't')],
                bounds=B_BT, assume=MODEL, explain='The full tree contract.'),
    'C16': dict(sel=[(f'({T16}|{T64})::cost::.*', 'q'), (f'{T256}::cost::.*', 't')], bounds=B_TREE,
                assume=HAVOC + ['an operation on a sub-tree or summary counts as constant-time when it is an end query, a construction, an operation on a single element, or a query that the extremes answer'],
                explain='The components count the non-constant-time operations asked of them; at most one per operation of the tree above.'),
    'C17': dict(sel=[('h_key::mb::.*', 'q'), (f'({T16}|{T64})::forms::.*', 'q'), (f'{T256}::forms::.*', 't'), ('h_key::split::.*', 'q'), ('h_arr::.*', 'q')],
                bounds=B_TREE + B_KEY, assume=HAVOC, explain='Each operation with its key in every form, compared with the oracle.'),
    'C18': dict(sel=[('h_list::.*', 'q'), ('h_map::coll::.*', 'q')], bounds=B_LIST, assume=MODEL,
                explain='Lists of values and of sub-trees against an array.'),
    'C19': dict(sel=[(f'({T16}|{T64})::clone::.*', 'q'), (f'{T256}::clone::.*', 't'), ('h_set::more::clone', 'q')], bounds=B_TREE + B_SET,
                assume=HAVOC, explain='A clone has the same entries; mutating either side leaves the other as it was.'),
    'C20': dict(sel=[('h_key::small::.*', 'q'), ('h_key::idx::.*', 'q')], bounds='All values; shifts below 8.', assume=['shifts of 8 and more overflow the underlying byte and are outside the claim'],
                explain='Conversions, operators, order, hash of U4 and U2.'),
    'C21': dict(sel=[('h_stack::(slots|hash_bt|signed|sized_box|pair|m8e)::(ins|ins2_f)', 'q'), ('h_stack::slots::ins_rem', 'q'), ('h_stack::sized_box::ins2_o', 'q'),
                     ('h_stack::m16e?::(ins|ins_rem)', 'q'), ('h_stack::hash16e?::ins2_f', 'q'), ('h_stack::byte16::ins', 'q'), ('h_stack::inline::ins', 'q'), ('h_stack_arr::(three|four)::ins2_find', 'q'),
                     ('h_pat::m8e?::.*', 'q'), ('h_pat::byte_set::(see_f|min_f|max3_f|min_o|max_rem_f)', 'q'), ('h_pat::byte_bt::(max_o|ins_f)', 'q'),
                     ('h_pat::hash_bt::(max_o|min_o)', 'q'), ('h_pat::slots::see_o', 'q'), ('h_pat::signed::max_f', 'q'), ('h_pat::pair::min_max_f', 'q'), ('h_pat::nested::see_f', 'q'),
                     ('h_pat::.*', 't'), ('h_stack::.*', 't'), ('h_stack_arr::.*', 't')],
                bounds=B_STACK, assume=MODEL + ['the ready-made 32- and 64-bit trees are not assembled: their parts and the generic layers are (other properties)'],
                explain='Histories over assembled trees by public calls only.'),
}


def select(prop, quick, names):
    """crate -> harnesses, longest first"""
    out = {}
    for n in names:
        if any((t == 'q' or not quick) and re.fullmatch(r, n) for r, t in PLAN[prop]['sel']):
            if COST.get(n, 20) >= 9999 or (quick and COST.get(n, 20) > 260):
                continue
            out.setdefault(CRATE.get(n.split('::')[0], 'real'), []).append(n)
    for v in out.values():
        v.sort(key=lambda n: -COST.get(n, 20))
    return out


def cost(names):
    return sum(COST.get(n, 20) for n in names)


if __name__ == '__main__':
    import sys
    names = sys.stdin.read().split()
    used = set()
    for p in PLAN:
        for q in (True, False):
            s = select(p, q, names)
            used |= {n for v in s.values() for n in v}
            print(p, 'quick   ' if q else 'thorough', {c: (len(v), round(cost(v))) for c, v in s.items()}, round(sum(map(cost, s.values())) / 8))
    print('unused:', [n for n in names if n not in used])
