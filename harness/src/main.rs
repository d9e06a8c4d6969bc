#![allow(clippy::all)]
mod sym;
mod refm;
mod refcode;
mod refpool;
mod eq;
mod file;
mod props;
mod pools;
mod codes;
mod attrs;
mod desc;
mod alone;
mod around;
mod grow;

macro_rules! entries { ($($e:ident = $f:path),* $(,)?) => {
    $( #[no_mangle] pub extern "C" fn $e(case: u64) { $f(case) } )*
    #[cfg(feature = "native")]
    pub const ENTRIES: &[(&str, extern "C" fn(u64))] = &[ $( (stringify!($e), $e) ),* ];
} }
entries! {
    h_c01_raw = props::c01_raw, h_c01_attr = props::c01_attr, h_c01_code = props::c01_code, h_c01_switch = props::c01_switch, h_c01_many = props::c01_many, h_c01_counts = props::c01_counts,
    h_c02_raw = props::c02_raw, h_c02_attr = props::c02_attr, h_c02_code = props::c02_code, h_c02_switch = props::c02_switch, h_c02_many = props::c02_many, h_c02_counts = props::c02_counts,
    h_c03_nest = props::c03_nest, h_c03_mix = props::c03_mix,
    h_c04_cut = props::c04_cut, h_c04_real = props::c04_real, h_c04_append = props::c04_append,
    h_c05_envelope = props::c05_envelope, h_c05_members = props::c05_members, h_c05_long = props::c05_long, h_c05_magic = props::c05_magic,
    h_c06_flags = props::c06_flags, h_c06_masks = props::c06_masks,
    h_c07_attr = props::c07_attr, h_c07_near = props::c07_near, h_c07_code = props::c07_code, h_c07_nested = props::c07_nested,
    h_c08_kinds = props::c08_kinds, h_c08_repeat = props::c08_repeat, h_c08_long = props::c08_long, h_c09_entry = props::c09_entry,
    h_c10_const = props::c10_const, h_c10_sde = props::c10_sde,
    h_c11_history = pools::c11_history, h_c11_text = pools::c11_text, h_c11_long = pools::c11_long, h_c11_many = pools::c11_many, h_c11_high = pools::c11_high,
    h_c12_lookup = pools::c12_lookup, h_c12_parsed = pools::c12_parsed, h_c12_names = pools::c12_names, h_c12_large = pools::c12_large,
    h_c13_full = pools::c13_full, h_c13_parsed = pools::c13_parsed,
    h_c14_history = pools::c14_history, h_c14_parsed = pools::c14_parsed, h_c14_large = pools::c14_large,
    h_c15_pair = pools::c15_pair, h_c15_text = pools::c15_text, h_c15_triple = pools::c15_triple,
    h_c16_insn = codes::c16_insn, h_c17_table = codes::c17_table, h_c17_bounds = codes::c17_bounds, h_c17_lookup = codes::c17_lookup, h_c17_count = codes::c17_count, h_c18_far = codes::c18_far,
    h_c18_tiles = codes::c18_tiles, h_c18_mix = codes::c18_mix, h_c18_tables = codes::c18_tables, h_c18_long = codes::c18_long, h_c18_empty = codes::c18_empty,
    h_c19_undefined = codes::c19_undefined, h_c19_after = codes::c19_after,
    h_attr = attrs::attr, h_wide = attrs::wide, h_rich = attrs::rich, h_row = attrs::row, h_full = attrs::full, h_seq = attrs::seq,
    h_c25_name = attrs::c25_name, h_c25_near = attrs::c25_near, h_c25_bytes = attrs::c25_bytes, h_c25_large = attrs::c25_large, h_c25_index = attrs::c25_index, h_c25_far = attrs::c25_far,
    h_c26_type = desc::c26_type, h_c27_method = desc::c27_method,
    h_c29_raw = props::c29_raw, h_c29_attr = props::c29_attr, h_c29_near = props::c29_near, h_c29_nested = props::c29_nested, h_c29_code = props::c29_code, h_c29_counts = props::c29_counts, h_c29_real = props::c29_real, h_c29_cut = props::c29_cut, h_c29_string = props::c29_string,
    h_c30_raw = props::c30_raw, h_c30_attr = props::c30_attr, h_c30_code = props::c30_code, h_c30_switch = props::c30_switch, h_c30_many = props::c30_many, h_c30_counts = props::c30_counts, h_c30_large = props::c30_large, h_c30_tables = props::c30_tables,
    h_c31_attr = alone::c31_attr, h_c31_cut = alone::c31_cut, h_c31_twice = alone::c31_twice, h_c31_string = alone::c31_string, h_c31_code = alone::c31_code, h_c31_pools = alone::c31_pools, h_c31_desc = alone::c31_desc,
    h_c32_around = around::c32_around, h_c32_sample = around::c32_sample, h_c32_pair = around::c32_pair, h_c32_shift = around::c32_shift, h_c32_everywhere = around::c32_everywhere, h_c32_code = around::c32_code, h_c32_free = around::c32_free,
    h_c33_real = around::c33_real,
    h_c34_after = grow::c34_after, h_c34_lookup = grow::c34_lookup, h_c34_real = grow::c34_real, h_c34_again = grow::c34_again, h_c34_full = grow::c34_full,
    h_c35_type = desc::c35_type, h_c35_method = desc::c35_method, h_c35_large = desc::c35_large,
    h_c37_type = desc::c37_type, h_c37_method = desc::c37_method,
    h_c38_flags = props::c38_flags,
    h_c36_op = grow::c36_op, h_c36_fill = grow::c36_fill,
    h_c28_type = desc::c28_type, h_c28_method = desc::c28_method, h_c28_value = desc::c28_value, h_c28_mvalue = desc::c28_mvalue,
}

#[cfg(feature = "native")]
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut h = a[3].clone();
    if h == "-" { h.clear(); use std::io::Read; std::io::stdin().read_to_string(&mut h).unwrap(); h.truncate(h.trim_end().len()); }
    let v: Vec<u8> = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect();
    unsafe { sym::imp::INPUT = v; }
    for &(n, f) in ENTRIES { if n == a[1] { f(a[2].parse().unwrap()); println!("REPLAY completed"); return; } }
    println!("REPLAY no such entry");
    std::process::exit(44);
}
#[cfg(not(feature = "native"))]
fn main() {}
