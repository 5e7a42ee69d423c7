"""Which contracts each property rests on (regular expressions over function paths) and the theorems that state it."""

LWE = [r'utils::lwe::']
FMT = [r'utils::format::(?!sha256)']
MATRIX = [r'utils::matrices::(vec_mult_u32_u32|generate_lwe_matrix_from_seed|get_seeded_rng|swap_matrix_fmt|get_matrix_second_at)']
RAND = [r'utils::matrices::random_', r'utils::random::']
PARAMS = [r'db::BaseParams::', r'db::CommonParams', r'.* as BaseParams::']
DBM = [r'db::DatabaseMatrix::', r'.* as DatabaseMatrix::(vec_mult|get_row_width|get_row_width_self|get_matrix_height|get_elem_size|get_plaintext_bits|switch_fmt|get_row|get_db_entry)$']
IDX = [r'db::index::']
KV = [r'db::kv::']
FILT = [r'bfusep32::', r'prelude::(mix|mix256|bfuse::|bfusep::)', r'murmur3::']
HASH = [r'murmur3::', r'splitmix64::', r'prelude::mix$']
QI = r'api::QueryParams<IndexDatabase,EmptyAuxParams>::'
QK = r'api::QueryParams<KVDatabase,FilterParams>::'

CONES = {
    'C01': (LWE + FMT + MATRIX + RAND + PARAMS + DBM + KV + FILT + [r'utils::format::sha256', r'api::KVShard::', QK, r'api::(generate_kv_query_params|check_query_len|Query::|Response::)'],
            ['thm_kv_pir', 'thm_kv_pir_text']),
    'C02': (LWE + FMT + MATRIX + RAND + PARAMS + DBM + IDX + [r'api::Shard::', QI, r'api::(generate_index_query_params|check_query_len|Query::|Response::)'],
            ['thm_index_pir']),
    'C03': ([QI + r'(new|generate_query|parse_)', QK + r'(new|generate_query|parse_)', r'api::generate_(index|kv)_query_params', r'codec:(api::|db::kv::FilterParams)', r'api::QueryParams<DB,EP> as Clone', r'api::EmptyAuxParams as Clone', r'db::(kv::FilterParams|kv::KVDatabase|index::IndexDatabase) as Clone'],
            ['thm_second_query', 'thm_copy_is_used', 'thm_copy_is_used_kv', 'thm_second_kv_query', 'thm_used_is_saved', 'thm_used_is_saved_kv']),
    'C04': ([QI + 'generate_query', QK + 'generate_query', r'utils::lwe::get_(plaintext_size|rounding_factor)$', r'db::kv::FilterParams::get_hash_evals',
             r'bfusep32::BinaryFuseP32::hash_eval', r'prelude::(mix|mix256)$', r'prelude::bfuse::(hash_of_hash|mod3)', 'murmur3::', 'api::Query::'], []),
    'C05': ([r'api::(Shard|KVShard)::respond', r'api::check_query_len', r'api::Response::', r'.* as DatabaseMatrix::(vec_mult|get_row_width_self|get_matrix_height)$',
             r'utils::matrices::vec_mult_u32_u32'], []),
    'C06': (PARAMS + [r'utils::matrices::', r'utils::random::', r'db::index::IndexParams', r'db::kv::KVParams', QI + 'new', QK + 'new', r'api::generate_(index|kv)_query_params',
                      r'api::Shard::(from_base64_strings|get_base_params)', r'api::KVShard::(new|from_base64_strings|get_base_params)',
                      r'.* as DatabaseMatrix::(vec_mult|get_row_width|get_row_width_self|get_matrix_height|get_elem_size|get_plaintext_bits)$'], []),
    'C07': (FMT + [r'db::index::construct_rows?$', r'db::kv::construct_row$', r'.* as DatabaseMatrix::(get_db_entry|get_row|get_row_width_self|get_matrix_height|get_elem_size|get_plaintext_bits)$',
                   r'api::(Shard|KVShard)::into_row_iter', r'db::index::IndexDatabase::new', r'api::Shard::from_base64_strings', r'utils::matrices::(swap_matrix_fmt|get_matrix_second_at)'],
            ['thm_index_listing']),
    'C08': ([r'db::index::construct_rows?$', r'db::kv::construct_row$', r'db::index::IndexDatabase::new', r'api::Shard::from_base64_strings', r'db::kv::KVDatabase::(new|from_base64_strings)',
             r'db::kv::StorageFilters::', r'db::kv::KeyValue::', r'api::KVShard::(new|from_base64_strings)', r'utils::format::(bytes_to_bits_le|u8_to_bits_le|bits_to_u32_le|sha256)',
             r'bfusep32::BinaryFuseP32::(from_slice|from_vec)', r'prelude::(mix256|bfusep::)'], []),
    'C09': ([QI + 'parse_resp_as_row', QK + 'parse_resp_as_row', r'utils::lwe::', r'.* as DatabaseMatrix::get_row_width$', r'db::kv::FilterParams::(unmask_value|get_key_fingerprint)'], []),
    'C10': (FILT, []),
    'C11': (FILT + [r'db::kv::(StorageFilters|FilterParams|KVDatabase)::', r'db::kv::KVParams::(new|get_filter_params)', r'api::KVShard::(new|from_base64_strings|get_db|get_base_params)',
                    r'utils::lwe::get_plaintext_size'], ['thm_kv_client_agrees']),
    'C12': (HASH + [r'bfuse(8|16|32)::', r'prelude::bfuse::'], []),
    'C13': (HASH + [r'xor(8|16|32)::', r'prelude::(xor|HSet|KeyIndex)'], []),
    'C14': (HASH + [r'fuse(8|16|32)::', r'prelude::(fuse|HSet|KeyIndex)'], []),
    'C15': ([r'hash_proxy::'], []),
    'C16': ([r'bfusep32::BinaryFuseP32::(retrieve|hash_eval|get_key_fingerprint)', r'prelude::', r'murmur3::', r'db::kv::FilterParams::', r'(bfuse|xor|fuse)(8|16|32)::.*(contains|len)'], []),
    'C17': ([r'utils::matrices::random_', r'utils::random::', r'db::CommonParams::mult_left', QI + 'new', QK + 'new', r'api::generate_(index|kv)_query_params',
             r'db::kv::StorageFilters::from_kvs', r'db::index::IndexParams::new', r'db::kv::KVParams::new', r'db::kv::KVDatabase::new', r'api::Shard::from_base64_strings',
             r'api::KVShard::(new|from_base64_strings)'], []),
    'C18': (HASH + [r'(bfuse|fuse)(8|16|32)::.*try_from', r'bfusep32::BinaryFuseP32::from_', r'prelude::', r'db::kv::StorageFilters::'], []),
    'C19': ([r'utils::matrices::(swap_matrix_fmt|get_matrix_second_at)', r'.* as DatabaseMatrix::(switch_fmt|get_row|get_db_entry)$'], ['thm_switch_twice']),
    'C20': ([r'.*write_to_file', r'.*from_json_file', r'.*::from_file', r'db::index::IndexParams::load', r'codec:db::', r'codec:api::EncodedKV'],
            ['thm_saved_params', 'thm_saved_kv_params', 'thm_file_strings', 'thm_file_pairs']),
}
