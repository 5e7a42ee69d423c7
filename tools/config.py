"""Which spec file goes with which module of the generated file."""
import re
import weave


def types_main(t):
    t = re.sub(r'\b(?:crate::errors::)?ErrorUnexpectedInputSize\b', 'crate::ext::VErr', t)
    t = re.sub(r'Box\s*<\s*dyn\s+(?:std::error::)?Error\s*>', 'crate::ext::VErr', t)
    while True:
        m = re.search(r'\bResultBoxedError\s*<', t)
        if not m:
            break
        d, i = 1, m.end()
        while d:
            if t[i] == '<':
                d += 1
            if t[i] == '>' and t[i - 1] != '-':
                d -= 1
            i += 1
        t = t[:m.start()] + 'Result<' + t[m.end():i - 1] + ', crate::ext::VErr>' + t[i:]
    t = re.sub(r'\b(?:std::string::)?String\b', 'crate::ext::VString', t)
    t = re.sub(r'&\s*str\b', '&crate::ext::VString', t)
    t = re.sub(r"&'static\s+str\b", 'crate::ext::VErr', t)
    t = re.sub(r'\b(?:serde::)?(Serialize|DeserializeOwned)\b', 'crate::files::VSerde', t)
    return t


def types_xorf(t):
    t = re.sub(r'\bHasher\s*\+\s*Default\b', 'crate::ext::VHasher', t)
    t = re.sub(r'\bHash\b', 'crate::ext::VHash', t)
    t = re.sub(r'\bFilter\s*<\s*u64\s*>', 'crate::ext::VFilter', t)
    t = re.sub(r'\bFrom\s*<\s*Vec\s*<\s*u64\s*>\s*>', 'crate::ext::VFromKeys', t)
    t = re.sub(r"&'static\s+str\b", 'crate::ext::VErr', t)
    return t


LOG = 'Tracked(log)'
DISK = 'Tracked(disk)'
CALLS = {'main': {**{n: DISK for n in ('.write_to_file', 'IndexDatabase::from_file', 'IndexParams::load')},
         **{n: LOG + ', ' + DISK for n in ('Shard::from_json_file', 'KVShard::from_json_file')}, **{n: LOG for n in ('random_ternary', 'random_ternary_vector', 'generate_seed', '.mult_left', 'IndexParams::new', 'KVParams::new', 'Shard::from_base64_strings', 'KVShard::from_base64_strings',
             'QueryParams::new', 'IndexParams::new', 'StorageFilters::from_kvs', 'KVDatabase::new', 'KVShard::new',
             'generate_index_query_params', 'generate_kv_query_params', 'KVDatabase::from_base64_strings')}}, 'xorf': {}}
TYPES = {'main': types_main, 'xorf': types_xorf}
MODULES = [
    ('murmur3', 'murmur3.rs', {}, 'xorf'),
    ('prelude', 'prelude.rs', {}, 'xorf'),
    ('bfusep32', 'bfusep32.rs', {}, 'xorf'),
    ('splitmix64', 'splitmix64.rs', {}, 'xorf'),
    ('bfuse8', 'bfuse.rs', {'W': '8', 'T': 'u8'}, 'xorf'),
    ('bfuse16', 'bfuse.rs', {'W': '16', 'T': 'u16'}, 'xorf'),
    ('bfuse32', 'bfuse.rs', {'W': '32', 'T': 'u32'}, 'xorf'),
    ('fuse8', 'fuse.rs', {'W': '8', 'T': 'u8'}, 'xorf'),
    ('fuse16', 'fuse.rs', {'W': '16', 'T': 'u16'}, 'xorf'),
    ('fuse32', 'fuse.rs', {'W': '32', 'T': 'u32'}, 'xorf'),
    ('xor8', 'xor.rs', {'W': '8', 'T': 'u8'}, 'xorf'),
    ('xor16', 'xor.rs', {'W': '16', 'T': 'u16'}, 'xorf'),
    ('xor32', 'xor.rs', {'W': '32', 'T': 'u32'}, 'xorf'),
    ('hash_proxy', 'hash_proxy.rs', {}, 'xorf'),
    ('lwe', 'lwe.rs', {}, 'main'),
    ('matrices', 'matrices.rs', {}, 'main'),
    ('random', 'random.rs', {}, 'main'),
    ('format', 'format.rs', {}, 'main'),
    ('db', 'db.rs', {}, 'main'),
    ('index', 'index.rs', {}, 'main'),
    ('kv', 'kv.rs', {}, 'main'),
    ('api', 'api.rs', {}, 'main'),
]


def load(modules=None):
    sources = {'main': weave.Source('main'), 'xorf': weave.Source('xorf')}
    return weave.Crate(sources, modules or MODULES, CALLS, TYPES, ['ext', 'files', 'math', 'peel'], ['theorems'])
