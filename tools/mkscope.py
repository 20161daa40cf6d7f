#!/usr/bin/env python3
"""Writes contracts/scope.json: the functions and lemmas each property is decided by."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = 'v1::parser::'
def p(s): return [P + x for x in s.split()]
ESC = p('unescape_hex parse_hex hex_to_digit is_hex_encoding is_hex')
FIELDS = p('read_line is_file_name parse_path parse_path_buf parse_os_str parse_u64 parse_field parse_hashes parse_hex_unchecked hex_to_digit_unchecked') + ESC
ENTRY = p('Entry::parse Hashes::new') + ['hash_type::HashType::output_bytes']
ITER = p('Footer::parse EntryIterator::new EntryIterator::parse_entry EntryIterator::_parse_entry') + [P + '<EntryIterator as Iterator>::next', P + 'read_line']
KIND = p('EntryKind::path EntryKind::as_ref EntryKind::cloned Entry::path Entry::kind') + [P + '<EntryKind as PartialOrd>::partial_cmp', P + '<EntryKind as Ord>::cmp']
HASHES = p('Hashes::new Hashes::len Hashes::get Hashes::block_size Hashes::hash_type Hashes::iter') + [P + '<HashesIter as Iterator>::next', 'hash_type::HashType::output_bytes']
L_ESC = 'lemma_nibbles lemma_hexdig lemma_hexbyte lemma_hex_len lemma_hex_index lemma_hex_roundtrip lemma_hex_append lemma_escape_roundtrip lemma_escape_append lemma_escape_graphic lemma_escape_nonempty lemma_unescape_noesc lemma_unescape_prefix'.split()
L_DEC = 'lemma_dec lemma_dec_roundtrip lemma_not_dec lemma_space_at lemma_space_unique lemma_field_of lemma_line_len lemma_first_line lemma_blocks lemma_unhex_step'.split()
L_ORD = 'lemma_bcmp lemma_bcmp_trans lemma_ncmp lemma_ncmp_trans lemma_ccmp lemma_ccmp_trans lemma_ccmp_below lemma_ccmp_sibling lemma_slash_at comps_dec lemma_comps_name lemma_comps_cat lemma_comps_join lemma_kcmp lemma_kcmp_trans'.split()
L_IT = 'lemma_step_measure lemma_row_ok lemma_step_ok seek_dec'.split()
ASSUME = ['contracts of std and of the dependencies in contracts/vp.rs (listed in trusted_base)', 'usize is 64 bits wide', 'allocation succeeds']
S = {}
def add(pid, functions, lemmas, bounded, level='proof', explanation=None, assumptions=()):
    fs = []
    for f in functions:
        if f not in fs: fs.append(f)
    mods = []
    for f in fs:
        m = 'hash_type' if f.startswith('hash_type::') else 'read' if f.startswith('read::') else 'config' if f.startswith('config::') else None
        if m is None:
            m = 'v1' if f in V1 else '::'.join(f.split('::')[:2])
        if m not in mods: mods.append(m)
    mods.append('spec')
    S[pid] = {'functions': fs, 'lemmas': lemmas, 'modules': mods, 'bounded': bounded, 'level': level, 'without_threads': pid == 'P12', 'assumptions': ASSUME + list(assumptions)}
    if explanation: S[pid]['explanation'] = explanation

V1 = ['v1::' + x for x in ('scan', 'add_progress', 'add_threads', 'add_hash')]
SCAN = ['v1::scan::scan', 'v1::scan::find_roots']
CONF = ['config::ScannerConfig::' + x for x in ('new', 'hash', 'threads', 'auto_threads', 'queue_size', 'add_dir', 'print_progress')]
W = 'v1::writer::'; TW = 'v1::threaded_writer::'; PR = 'v1::progress::'; H = 'v1::hash::'; EM = 'v1::emitter::'
METH = ['start_dir', 'add_file', 'add_symlink', 'get_hash', 'done']
NAME = [W + '<Name as Display>::fmt']
HT = ['hash_type::HashType::' + x for x in ('sha512_256', 'blake2b_256', 'blake3_256', 'output_bytes')] + ['hash_type::<HashType as FromStr>::from_str', 'hash_type::<HashType as Display>::fmt']
HASH = [H + x for x in ('Sha512_256::new', 'Blake2b_256::new', 'Blake3_256::new', 'Hash::hash_file', 'Hash::hash_and_size')] \
    + [H + '<%s as Write>::%s' % (t, m) for t in ('Sha512_256', 'Blake2b_256', 'Blake3_256') for m in ('write', 'flush')] \
    + [H + '<%s as Hash>::%s' % (t, m) for t in ('Sha512_256', 'Blake2b_256', 'Blake3_256') for m in ('name', 'update', 'total_hash')] \
    + [H + '<Sha512_256_Res as HashOutput>::result', H + '<Blake_Res as HashOutput>::result']
HEXOUT = [H + '<Sha512_256_Res as LowerHex>::fmt', H + '<Blake_Res as LowerHex>::fmt']
def wr(ms): return [W + '<SyncWriter as Writer>::' + m for m in ms]
def tw(ms): return [TW + '<ThreadedWriter as Writer>::' + m for m in ms]
def pg(ms): return [PR + '<Progress as Writer>::' + m for m in ms]
TQ = [TW + 'ThreadedWriter::' + x for x in ('new', 'poll_item', 'poll_queue', 'wait_queue')]
PGF = [PR + 'Progress::new', PR + 'Progress::check_print']
HW = [W + '<HashWriter as Write>::write', W + '<HashWriter as Write>::flush']
SW = [W + 'SyncWriter::new']
EHASH = [EM + '<%s as HashTrait>::%s' % (t, m) for t in ('Sha512Trunc256', 'VarBlake2b', 'Hasher') for m in ('input', 'write_hash')]
EMIT = [EM + 'Emitter::' + x for x in ('new', 'start_dir', 'add_file', 'add_symlink', 'finish')] + [EM + '<HashWriter as Write>::write', EM + '<HashWriter as Write>::flush'] + EHASH
HEXF = [P + '<Hexlified as LowerHex>::fmt', P + '<HexHashesIter as Iterator>::next', P + 'Hashes::hex_iter']
HEADER = p('Header::parse Header::get_version Header::get_hash_type Header::get_block_size Parser::new Parser::get_header Parser::iter Parser::into_reader read_line')
CHECK = p('Hashes::hash_file Hashes::_hash_file Hashes::check_file Hashes::_check_file Hashes::new Hashes::len Hashes::get')
L_HEAD = 'lemma_names lemma_names_differ lemma_ws_at words_dec lemma_word lemma_ascii lemma_three_words lemma_header_has lemma_header_one lemma_header_row encode_utf8_injective lemma_sig_split lemma_magic lemma_kv_split lemma_header_no_nl'.split()
L_EMIT = 'lemma_dir_row lemma_hashes_row lemma_file_row lemma_link_row lemma_call_row lemma_line lemma_footer lemma_read_back lemma_calls_push lemma_emitted_index entries_dec'.split()
L_BLOCK = 'lemma_block_step lemma_ceil lemma_ceil_is lemma_bh lemma_bh_len lemma_bh_all lemma_hashes_text_push'.split()
L_WALK = 'lemma_calls_cat lemma_one_call lemma_item_row lemma_item_calls lemma_visit_named lemma_visit_calls lemma_walk_calls lemma_parts lemma_extends lemma_child lemma_queue_step lemma_below_step lemma_below_first lemma_walk_order lemma_named_in_len lemma_of_name_two lemma_walk_thin lemma_item_key lemma_visit_order lemma_ents_order lemma_walk_index lemma_indexed_entries'.split()
L_SCAN = 'lemma_q_pop lemma_q_front lemma_q_one lemma_q_none lemma_group_dirs lemma_slash lemma_key lemma_names_of lemma_list_start lemma_list_at lemma_list_step lemma_list_end lemma_row_start lemma_row_step lemma_row_end lemma_groups_start lemma_groups_step lemma_groups_end lemma_leads_start lemma_leads_step lemma_leads_end lemma_cat_push lemma_of_name_push lemma_collect_none lemma_collect_begin lemma_push_has lemma_collect_step lemma_collect_end lemma_collect_sorted lemma_of_name_range lemma_of_name_has lemma_of_name_none lemma_named_in_name lemma_grouping_step lemma_grouping_end lemma_group_start lemma_group_step lemma_group_end lemma_child_path lemma_sorted_unique lemma_of_name_mem lemma_names_unique lemma_drop_last_has lemma_children_unique'.split()
ROWS = FIELDS + ENTRY + ITER

add('P01', ESC + p('parse_os_str parse_path_buf parse_path parse_field') + NAME, L_ESC, {})
add('P02', EMIT + HEXF + NAME + HT + HEADER + ROWS + HASHES, L_ESC + L_DEC + L_HEAD + L_EMIT + L_IT + ['lemma_ehw', 'lemma_hashes_text_push'] + L_WALK, {})
add('P03', FIELDS + ENTRY + ITER + KIND + HASHES + HEADER + p('EntryIterator::advance'), L_ESC + L_DEC + L_IT + L_HEAD, {})
add('P04', ITER + p('EntryIterator::advance'), L_IT + ['lemma_first_line'], {})
add('P05', FIELDS + ENTRY, L_ESC + L_DEC + ['lemma_row_ok', 'lemma_step_ok'], {})
add('P06', KIND, L_ORD, {})
add('P07', p('EntryIterator::advance') + ITER + KIND, L_IT + L_ORD + 'lemma_step_again lemma_seek_entries lemma_from_key'.split(), {})
ME = 'v1::merge::'
PK = [ME + 'PeekableEntryIterator::' + x for x in ('new', 'peek', 'advance')] + [ME + '<PeekableEntryIterator as Iterator>::next']
MERGED = PK + [ME + 'MergedEntriesIterator::new', ME + 'MergedEntriesIterator::advance', ME + '<MergedEntriesIterator as Iterator>::next', ME + 'MergedSignatures::iter']
L_MERGE = 'lemma_sub_push lemma_kcmp_min lemma_step_again lemma_seek_entries lemma_from_key lemma_adv_alone lemma_pk_alone lemma_pk_left lemma_looked lemma_chosen lemma_take lemma_taken lemma_taken0 lemma_stepped lemma_step_in lemma_step_out lemma_merge_step lemma_merge_order'.split()
add('P08', MERGED + ITER + p('EntryIterator::advance Parser::iter') + KIND, L_MERGE + L_IT + L_ORD, {})
add('P09', [ME + 'check_same', ME + 'MergedSignatures::new', ME + 'FileMergeBuilder::new', ME + 'FileMergeBuilder::add', ME + 'FileMergeBuilder::finalize'] + HEADER, [], {})
add('P10', wr(METH) + tw(METH) + pg(METH) + TQ + PGF + HW + SW + HASH + HEXOUT + EMIT + HEXF + NAME + V1 + SCAN + CONF[:2], ['lemma_hw', 'lemma_hw_step', 'lemma_ehw', 'lemma_checksum_of_index'] + L_BLOCK + ['lemma_indexed'], {})
add('P11', wr(['add_file']) + tw(['add_file']) + pg(['add_file']) + [TW + 'ThreadedWriter::poll_item', TW + 'ThreadedWriter::poll_queue', TW + 'ThreadedWriter::wait_queue'] + HASH + HEXOUT + NAME + V1 + SCAN + CONF[:2], L_BLOCK + ['lemma_indexed'], {})
add('P12', tw(METH) + wr(METH) + pg(METH) + TQ + PGF + SW + V1 + SCAN + CONF, L_BLOCK + L_SCAN + ['lemma_indexed', 'lemma_walks_unique'], {})
add('P13', SCAN + V1 + CONF + wr(['start_dir', 'add_file', 'add_symlink', 'done']) + tw(['start_dir', 'add_file', 'add_symlink', 'done']) + pg(['start_dir', 'add_file', 'add_symlink', 'done']) + TQ + SW + NAME, L_SCAN + ['lemma_indexed', 'lemma_walks_unique'] + L_WALK + L_EMIT + L_ORD, {})
add('P14', CHECK + HASH, L_BLOCK, {})
add('P15', ['read::get_hash', 'read::hex_to_digit', 'hash_type::<HashType as FromStr>::from_str', 'hash_type::HashType::output_bytes'], L_HEAD[:2] + ['lemma_sig', 'lemma_alg_chars', 'lemma_checksum_alg', 'lemma_checksum_of_index', 'lemma_nibbles'], {})
add('P16', wr(METH) + tw(METH) + pg(METH) + TQ + PGF + HW + SW + EMIT + HEXF + NAME + V1 + SCAN, ['lemma_hw', 'lemma_hw_step', 'lemma_ehw'], {})
add('P17', HEADER + HT + SW + [TW + 'ThreadedWriter::new', EM + 'Emitter::new'] + [H + '<%s as Hash>::name' % t for t in ('Sha512_256', 'Blake2b_256', 'Blake3_256')], L_HEAD, {})
add('P18', HASHES, [], {})
json.dump(S, open(V + '/contracts/scope.json', 'w'), indent=1)
open(V + '/contracts/scope.json', 'a').write('\n')
