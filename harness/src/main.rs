#![cfg_attr(feature = "sym", no_main)]
#![allow(dead_code)]
#[cfg(not(feature = "sym"))]
#[path = "../../engine/src/crypto.rs"]
mod crypto;
mod gen;
mod kdbx;
mod meta;
mod model;
mod entry;
mod tree;
mod strings;
mod conform;
mod doc;
mod reading;
mod errors;
mod io;
mod keys;
mod api;
mod many;
mod sess;
mod sym;
mod smoke;

macro_rules! entries {
    ($($m:ident :: $f:ident),* $(,)?) => {
        $(#[no_mangle] pub extern "C" fn $f() { $m::$f() })*
        #[cfg(not(feature = "sym"))]
        const TABLE: &[(&str, extern "C" fn())] = &[$((stringify!($f), $f)),*];
        #[cfg(feature = "sym")]
        #[no_mangle]
        pub extern "C" fn main(_a: i32, _b: *const *const u8) -> i32 { 0 }
    };
}

entries! {
    smoke::h_smoke_open,
    smoke::h_smoke_new,
    smoke::h_smoke_agree,
    meta::h_meta_all, meta::h_meta_text, meta::h_meta_long, meta::h_meta_num, meta::h_meta_time, meta::h_meta_frac,
    meta::h_meta_uuid, meta::h_meta_color, meta::h_meta_header, meta::h_meta_gzip,
    entry::h_entry_all, entry::h_entry_text, entry::h_entry_num, entry::h_entry_time, entry::h_entry_icon,
    entry::h_entry_opt, entry::h_entry_history, entry::h_entry_twins,
    tree::h_tree_shape, tree::h_tree_deep, tree::h_tree_twins, tree::h_group_all, tree::h_group_text, tree::h_group_num,
    tree::h_group_time, tree::h_group_opt,
    strings::h_str_all, strings::h_str_text, strings::h_str_key, strings::h_str_key_empty, strings::h_str_key_near, strings::h_str_long,
    strings::h_str_places, strings::h_protected_secret, strings::h_protected_stream, strings::h_protected_long, strings::h_bin_entry,
    strings::h_bin_text, strings::h_bin_long, strings::h_bin_shared, strings::h_bin_id, strings::h_icons,
    conform::h_conf_meta, conform::h_conf_entry, conform::h_conf_tree, conform::h_conf_group, conform::h_conf_text,
    conform::h_conf_num, conform::h_conf_header, conform::h_conf_gzip,
    reading::h_read_meta, reading::h_read_entry, reading::h_read_tree, reading::h_read_pool, reading::h_read_text, reading::h_read_time,
    reading::h_read_num, reading::h_read_header, reading::h_read_blocks, reading::h_read_gzip,
    errors::h_err_signature, errors::h_err_field, errors::h_err_size, errors::h_err_missing, errors::h_err_kind, errors::h_err_kdb1, errors::h_err_comment, errors::h_err_text, errors::h_err_utf8, errors::h_tamper_header, errors::h_tamper_hash, errors::h_tamper_saved, errors::h_tamper_block, errors::h_tamper_payload, errors::h_key_wrong, errors::h_any_bytes, errors::h_any_header, errors::h_any_cipher, errors::h_any_payload, errors::h_any_blocks, errors::h_any_document, errors::h_any_gzip, errors::h_cut_file, errors::h_cut_padding, errors::h_cut_payload, errors::h_bad_shape, errors::h_bad_time, sess::h_print_keyfile, errors::h_bad_value, errors::h_bad_attr, errors::h_bad_structure, errors::h_bad_end,
    io::h_io_read_short, io::h_io_read_cap, io::h_io_read_saved, io::h_io_read_interrupt, io::h_io_read_error, io::h_io_read_key, io::h_io_read_key_error,
    io::h_io_write_short, io::h_io_write_cap, io::h_io_write_interrupt, io::h_io_write_error, io::h_io_write_key,
    keys::h_key_composite, keys::h_key_saved, keys::h_key_rounds, keys::h_key_open, keys::h_key_change,
    keys::h_fresh_save, keys::h_fresh_uuid, keys::h_fresh_key,
    keys::h_keyfile_save, keys::h_keyfile_raw, keys::h_keyfile_xml, keys::h_keyfile_size, keys::h_keyfile_bad,
    api::h_conv_color_any, api::h_conv_color_all, api::h_conv_color_back, api::h_conv_number, api::h_conv_icon, api::h_conv_key_name,
    api::h_acc_strings, api::h_acc_keys, api::h_acc_bytes, api::h_acc_times, api::h_acc_new,
    api::h_tree_iter, api::h_tree_large, api::h_find_large, api::h_tree_iter_change, api::h_tree_iter_keep, api::h_tree_entries, api::h_tree_groups,
    api::h_find_id, api::h_find_entries, api::h_find_entries_many, api::h_find_groups, api::h_find_unicode, api::h_find_keep, api::h_tree_history,
    api::h_print_values, sess::h_sess_relay, sess::h_sess_edits, sess::h_sess_foreign, sess::h_sess_same, sess::h_sess_many,
    sess::h_size_payload, sess::h_size_large, sess::h_size_stream, sess::h_size_blocks, sess::h_size_gzip, sess::h_print_errors,
    many::h_hard_meta, many::h_hard_entry, many::h_hard_group, many::h_hard_str, many::h_hard_bin, many::h_hard_conf, many::h_hard_read, many::h_many_versions, many::h_many_entry, many::h_many_tree, many::h_many_pool, many::h_many_conf, many::h_many_read,
    strings::h_icons_text, strings::h_custom_data, strings::h_custom_data_text,
}

#[cfg(not(feature = "sym"))]
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let text = std::fs::read_to_string(&a[1]).expect("replay file");
    let entry = text.lines().find_map(|l| l.strip_prefix("entry ")).expect("entry").trim().to_string();
    sym::load(&text);
    std::panic::set_hook(Box::new(|i| {
        let l = i.location().map(|l| format!("{}:{}:{}", l.file(), l.line(), l.column())).unwrap_or_default();
        println!("outcome panic {}", l);
        println!("# {}", i);
    }));
    let f = TABLE.iter().find(|e| e.0 == entry).expect("known entry").1;
    f();
    println!("outcome ok");
}
