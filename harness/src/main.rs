#![allow(dead_code)]
mod cont;
mod eq;
mod fmt;
mod json;
mod model;
mod nd;
mod oom;
mod path;
mod proto;
mod scalar;
mod tr;

macro_rules! harnesses {
    ($($m:ident :: $f:ident => $h:ident),* $(,)?) => {
        $(#[no_mangle] #[inline(never)] pub extern "C" fn $h() { $m::$f() })*
        static TABLE: &[(&str, extern "C" fn())] = &[$((stringify!($h), $h)),*];
    };
}

harnesses! {
    oom::oom_scalar => H_oom_scalar,
    oom::oom_build => H_oom_build,
    oom::oom_wide => H_oom_wide,
    oom::oom_copy => H_oom_copy,
    oom::oom_path => H_oom_path,
    oom::fail_write => H_fail_write,
    oom::fail_rich => H_fail_rich,
    eq::eq_pos => H_eq_pos,
    scalar::typed_spread => H_typed_spread,
    path::forms_over => H_forms_over,
    path::sub_huge => H_sub_huge,
    path::exists_huge => H_exists_huge,
    path::steps_huge => H_steps_huge,
    path::parse_many => H_parse_many,
    oom::oom_many => H_oom_many,
    path::steps_many => H_steps_many,
    eq::eq_huge => H_eq_huge,
    json::serde_ways => H_serde_ways,
    fmt::compact_tight => H_compact_tight,
    fmt::pretty_tight => H_pretty_tight,
    fmt::compact_huge => H_compact_huge,
    fmt::pretty_huge => H_pretty_huge,
    json::json_wide => H_json_wide,
    json::json_over => H_json_over,
    json::serde_wide => H_serde_wide,
    eq::eq_many => H_eq_many,
    eq::eq_count => H_eq_count,
    eq::eq_digits => H_eq_digits,
    fmt::compact_placed => H_compact_placed,
    fmt::pretty_placed => H_pretty_placed,
    fmt::compact_pairs => H_compact_pairs,
    fmt::compact_crowd => H_compact_crowd,
    fmt::pretty_crowd => H_pretty_crowd,
    path::parse_long => H_parse_long,
    path::sub_big => H_sub_big,
    path::sub_among => H_sub_among,
    path::steps_deep => H_steps_deep,
    path::exists_deep => H_exists_deep,
    path::steps_crowd => H_steps_crowd,
    path::exists_crowd => H_exists_crowd,
    path::method_crowd => H_method_crowd,
    path::forms_many => H_forms_many,
    path::forms_far => H_forms_far,
    path::method_big => H_method_big,
    json::json_value => H_json_value,
    proto::count_big => H_count_big,
    cont::lookup_gaps => H_lookup_gaps,
    cont::lookup_mixed => H_lookup_mixed,
    cont::iter_many => H_iter_many,
    cont::room_num => H_room_num,
    cont::room_str => H_room_str,
    cont::room_any => H_room_any,
    cont::iter_adapt => H_iter_adapt,
    cont::array_adapt => H_array_adapt,
    cont::lookup_huge => H_lookup_huge,
    cont::iter_huge => H_iter_huge,
    cont::array_huge => H_array_huge,
    cont::iter_among => H_iter_among,
    cont::array_any => H_array_any,
    cont::nest_rich => H_nest_rich,
    cont::layout_rich => H_layout_rich,
    cont::append_rich => H_append_rich,
    cont::append_len => H_append_len,
    cont::copies_rich => H_copies_rich,
    cont::rebuild_rich => H_rebuild_rich,
    cont::rebuild_behind => H_rebuild_behind,
    eq::eq_rich => H_eq_rich,
    eq::eq_more => H_eq_more,
    fmt::compact_rich => H_compact_rich,
    fmt::pretty_rich => H_pretty_rich,
    fmt::compact_long => H_compact_long,
    fmt::pretty_long => H_pretty_long,
    json::json_rich => H_json_rich,
    json::json_keys => H_json_keys,
    json::json_big => H_json_big,
    json::serde_rich => H_serde_rich,
    json::serde_big => H_serde_big,
    path::exists_after => H_exists_after,
    path::exists_members => H_exists_members,
    path::exists_rich => H_exists_rich,
    path::steps_rich => H_steps_rich,
    path::method_rich => H_method_rich,
    path::forms_rich => H_forms_rich,
    scalar::str_any => H_str_any,
    scalar::str_ascii => H_str_ascii,
    scalar::str_bound => H_str_bound,
    scalar::str_huge => H_str_huge,
    scalar::str_refuse => H_str_refuse,
    scalar::str_len => H_str_len,
    scalar::num_all => H_num_all,
    scalar::num_int => H_num_int,
    scalar::typed_doc => H_typed_doc,
    scalar::typed_arr => H_typed_arr,
    scalar::typed_obj => H_typed_obj,
    scalar::typed_byte => H_typed_byte,
    cont::lookup3 => H_lookup3,
    cont::lookup4 => H_lookup4,
    cont::lookup_n => H_lookup_n,
    cont::lookup_utf8 => H_lookup_utf8,
    cont::lookup_many => H_lookup_many,
    cont::lookup_lens => H_lookup_lens,
    cont::lookup_sorted => H_lookup_sorted,
    cont::lookup_long => H_lookup_long,
    cont::lookup_far => H_lookup_far,
    cont::lookup_count => H_lookup_count,
    cont::iter_keys => H_iter_keys,
    cont::iter_values => H_iter_values,
    cont::iter_wide => H_iter_wide,
    cont::iter_long => H_iter_long,
    cont::array_mix => H_array_mix,
    cont::array_index => H_array_index,
    cont::array_big => H_array_big,
    cont::array_far => H_array_far,
    cont::nest_tree => H_nest_tree,
    cont::nest_chain => H_nest_chain,
    cont::nest_grow => H_nest_grow,
    cont::nest_far => H_nest_far,
    cont::layout_tree => H_layout_tree,
    cont::layout_flat => H_layout_flat,
    cont::layout_sizes => H_layout_sizes,
    cont::layout_counts => H_layout_counts,
    cont::append_scalar => H_append_scalar,
    cont::append_tree => H_append_tree,
    cont::append_json => H_append_json,
    cont::append_value => H_append_value,
    cont::append_far => H_append_far,
    cont::copies => H_copies,
    cont::rebuild => H_rebuild,
    cont::copies_big => H_copies_big,
    proto::arr_owned => H_arr_owned,
    proto::obj_owned => H_obj_owned,
    proto::arr_ref => H_arr_ref,
    proto::obj_ref => H_obj_ref,
    proto::key_limit => H_key_limit,
    proto::refuse_long => H_refuse_long,
    proto::deep_owned => H_deep_owned,
    proto::deep_ref => H_deep_ref,
    proto::deep_siblings => H_deep_siblings,
    proto::deep_json => H_deep_json,
    proto::deep_use => H_deep_use,
    eq::eq_any => H_eq_any,
    eq::eq_shape => H_eq_shape,
    eq::eq_order => H_eq_order,
    eq::eq_keys => H_eq_keys,
    eq::eq_num => H_eq_num,
    eq::eq_num_in => H_eq_num_in,
    eq::eq_len => H_eq_len,
    eq::eq_nested => H_eq_nested,
    fmt::compact_str => H_compact_str,
    fmt::compact_shape => H_compact_shape,
    fmt::compact_chain => H_compact_chain,
    fmt::compact_num => H_compact_num,
    fmt::pretty_str => H_pretty_str,
    fmt::pretty_shape => H_pretty_shape,
    fmt::pretty_chain => H_pretty_chain,
    fmt::pretty_num => H_pretty_num,
    fmt::pretty_deep => H_pretty_deep,
    path::parse_lead => H_parse_lead,
    path::parse_free => H_parse_free,
    path::parse_sub => H_parse_sub,
    path::parse_name => H_parse_name,
    path::parse_func => H_parse_func,
    path::parse_quote => H_parse_quote,
    path::parse_utf8 => H_parse_utf8,
    path::parse_index => H_parse_index,
    path::parse_edit => H_parse_edit,
    path::sub_one => H_sub_one,
    path::sub_list => H_sub_list,
    path::sub_nested => H_sub_nested,
    path::sub_long => H_sub_long,
    path::steps_shape => H_steps_shape,
    path::steps_chain => H_steps_chain,
    path::steps_keys => H_steps_keys,
    path::steps_names => H_steps_names,
    path::steps_quoted => H_steps_quoted,
    path::exists_shape => H_exists_shape,
    path::exists_chain => H_exists_chain,
    path::exists_sub => H_exists_sub,
    path::exists_keys => H_exists_keys,
    path::exists_method => H_exists_method,
    path::forms_two => H_forms_two,
    path::forms_method => H_forms_method,
    path::forms_reuse => H_forms_reuse,
    path::method_type => H_method_type,
    path::method_shape => H_method_shape,
    path::method_sub => H_method_sub,
    path::method_len => H_method_len,
    json::json_free => H_json_free,
    json::json_inner => H_json_inner,
    json::json_edit => H_json_edit,
    json::json_num => H_json_num,
    json::json_digits => H_json_digits,
    json::json_fixed => H_json_fixed,
    json::json_round => H_json_round,
    json::json_range => H_json_range,
    json::json_long => H_json_long,
    json::json_str => H_json_str,
    json::json_dup => H_json_dup,
    json::json_count => H_json_count,
    json::json_magic => H_json_magic,
    json::serde_scalar => H_serde_scalar,
    json::serde_shape => H_serde_shape,
    json::serde_tree => H_serde_tree,
    json::serde_within => H_serde_within,
    json::serde_bad => H_serde_bad,
    json::serde_magic => H_serde_magic,
}

#[cfg(symx)]
fn main() {
    // keeps every harness reachable; never executed
    for (n, f) in TABLE {
        if std::env::args().any(|a| a == *n) {
            f();
        }
    }
}

#[cfg(not(symx))]
#[allow(static_mut_refs)]
fn main() {
    // HARNESS TAPEFILE FILL TIER: replay one recorded input
    let a: Vec<String> = std::env::args().collect();
    let f = TABLE.iter().find(|t| t.0 == a[1]).expect("unknown harness").1;
    let tape = std::fs::read(&a[2]).expect("tape");
    unsafe { nd::TAPE = tape };
    if let Some(x) = a.get(3) {
        nd::FILL.store(x.parse().unwrap(), std::sync::atomic::Ordering::Relaxed);
    }
    if let Some(x) = a.get(4) {
        nd::TIER.store(x.parse().unwrap(), std::sync::atomic::Ordering::Relaxed);
    }
    f();
    println!("ok");
}
