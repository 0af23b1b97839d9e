//! Harnesses: each is a closed program over symbolic inputs whose checks state one property of
//! bvh_anim. The same source is executed symbolically (IR build) and natively (replay).
pub mod sym;

#[cfg(feature = "native")]
mod contracts;
#[cfg(feature = "native")]
pub use contracts::contracts;

macro_rules! harnesses {
    ($( $(#[$a:meta])* fn $name:ident() $body:block )*) => {
        $(
            $(#[$a])*
            #[cfg_attr(not(feature = "native"), no_mangle)]
            pub extern "C-unwind" fn $name() $body
        )*
        #[cfg(feature = "native")]
        pub static TABLE: &[(&str, extern "C-unwind" fn())] = &[$($(#[$a])* (stringify!($name), $name)),*];
    };
}

pub mod doc;
mod any;
mod build;
#[cfg(feature = "literals")]
#[allow(warnings)]
mod literals;
mod chan;
mod damage;
mod edit;
mod large;
mod load;
mod read;
mod write;
mod t;

harnesses! {
    fn t_channel() { t::channel() }
    fn t_bytes3() { t::bytes(3) }
    fn t_bytes5() { t::bytes(5) }
    fn t_window() { t::window() }
    fn t_write() { t::write() }
    fn t_fromstr() { t::fromstr() }
    fn t_maps() { t::maps() }
    fn t_trees() { t::trees() }
    fn t_slices() { t::slices() }
    fn t_strings() { t::strings() }
    fn t_cases() { t::cases() }
    fn t_texts() { t::texts() }
    fn t_floats() { t::floats() }
    fn t_rounds() { t::rounds() }
    fn t_arith() { t::arith() }
    fn t_roots() { t::roots() }
    fn t_integers() { t::integers() }
    fn t_shared() { t::shared() }
    fn t_prints() { t::prints() }
    fn t_catches() { t::catches() }
    fn t_outside() { t::outside() }
    fn t_ios() { t::ios() }

    fn c02_shape3() { load::shape(3, &[0, 1, 2]) }
    fn c02_shape4() { load::shape(4, &[0, 2]) }
    fn c02_shape5() { load::shape(5, &[1]) }
    fn c02_shape6() { load::shape(6, &[1]) }
    fn c02_chans() { load::chan_lists() }
    fn c02_names2() { load::names(2) }
    fn c02_names3() { load::names(3) }
    fn c02_keywords() { load::keyword_names() }
    fn c02_deep() { load::deep(7) }
    fn c02_wide() { load::wide(12) }
    fn c03_motion() { load::motion(4, 3) }
    fn c03_count() { load::count(3, 3) }
    fn c03_hard() { load::hard_values() }
    fn c03_forms() { load::forms() }
    fn c03_times() { load::times() }
    fn c17_navigate5() { load::navigate(5) }
    fn c17_navigate6() { load::navigate(6) }
    fn c17_lookup() { load::lookup_bytes() }

    fn c11_one() { edit::insert_one(3, 3) }
    fn c11_one5() { edit::insert_one(5, 5) }
    fn c11_bad() { edit::insert_bad(3, 2) }
    fn c11_many() { edit::insert_many(2, 2, 3) }
    fn c11_many4() { edit::insert_many(3, 4, 5) }
    fn c11_chunks() { edit::insert_chunks() }
    fn c11_foreign() { edit::insert_foreign() }
    fn c12_remove() { edit::remove(3, 4) }
    fn c12_remove6() { edit::remove(5, 6) }
    fn c12_clear() { edit::clear(3, 3) }
    fn c13_history4() { edit::history(4, 2, 2, true) }
    fn c13_history5() { edit::history(5, 2, 2, true) }
    fn c13_moves6() { edit::history(6, 1, 2, false) }
    fn c13_empty() { edit::history_empty(4) }
    fn c14_ends() { edit::both_ends(2, 3) }
    fn c14_ends4() { edit::both_ends(3, 5) }
    fn c14_value() { edit::one_value(3, 2) }
    fn c14_set() { edit::set_value(3, 3) }
    fn c14_outside() { edit::set_outside(2) }
    fn c19_equality() { edit::equality() }
    fn c19_shapes() { edit::shapes() }
    fn c19_values() { edit::values_compare() }
    fn c19_copy() { edit::copy() }

    fn c01_first3() { any::first_lines(3, any::What::Total) }
    fn c01_hier3() { any::hierarchy_lines_any(3, any::HIER, any::What::Total) }
    fn c01_hier4() { any::hierarchy_lines_any(4, any::HIER, any::What::Total) }
    fn c01_motion4() { any::motion_lines_any(4, any::What::Total) }
    fn c01_bytes4() { any::bytes(4) }
    fn c01_window2() { any::window(2, 0, any::DOC_LEN, any::What::Total) }
    fn c01_window1() { any::window(1, 0, any::DOC_LEN, any::What::Total) }
    fn c01_cut1() { any::cut(1) }
    fn c01_numbers1() { any::numbers(1) }
    fn c01_first5() { any::first_lines(5, any::What::Total) }
    fn c01_motion6() { any::motion_lines_any(6, any::What::Total) }
    fn c01_cut2() { any::cut(2) }
    fn c01_numbers3() { any::numbers(3) }
    fn c01_any_numbers() { any::any_numbers() }
    fn c01_long() { any::long() }
    fn c04_hier4() { any::hierarchy_lines_any(4, any::HIER, any::What::Channels) }
    fn c04_good6() { any::hierarchy_lines_any(6, any::GOOD, any::What::Channels) }
    fn c04_good8() { any::hierarchy_lines_any(8, any::GOOD, any::What::Channels) }
    fn c04_motion4() { any::motion_lines_any(4, any::What::Channels) }
    fn c04_window2() { any::window(2, 0, any::DOC_LEN, any::What::Channels) }
    fn c04_window1() { any::window(1, 0, any::DOC_LEN, any::What::Channels) }
    fn c05_hier4() { any::hierarchy_lines_any(4, any::HIER, any::What::Tree) }
    fn c05_good6() { any::hierarchy_lines_any(6, any::GOOD, any::What::Tree) }
    fn c05_good8() { any::hierarchy_lines_any(8, any::GOOD, any::What::Tree) }
    fn c05_first3() { any::first_lines(3, any::What::Tree) }
    fn c05_window2() { any::window(2, 0, any::DOC_LEN, any::What::Tree) }
    fn c05_window1() { any::window(1, 0, any::DOC_LEN, any::What::Tree) }
    fn c15_bytes12() { chan::bytes(12, 3) }
    fn c15_text9() { chan::bytes(9, 6) }
    fn c15_near() { chan::near() }
    fn c15_display() { chan::display() }
    fn c15_kinds() { chan::kinds() }

    fn c06_trees3() { write::trees(3, &[0, 2]) }
    fn c06_trees4() { write::trees(4, &[1]) }
    fn c06_trees5() { write::trees(5, &[1]) }
    fn c06_motion() { write::motion(3, 3) }
    fn c06_hard() { write::hard_values(true) }
    fn c06_hard1() { write::hard_values(false) }
    fn c06_names() { write::names(2) }
    fn c06_edited() { write::edited() }
    fn c06_empty() { write::empty() }
    fn c07_trees3() { write::opt_trees(3) }
    fn c07_trees4() { write::opt_trees(4) }
    fn c07_values1() { write::opt_values(1) }
    fn c07_values3() { write::opt_values(3) }
    fn c07_hard() { write::opt_hard() }
    fn c07_indents() { write::opt_indents() }
    fn c07_setters2() { write::opt_setters(2) }
    fn c07_setters3() { write::opt_setters(3) }
    fn c07_types() { write::opt_types() }
    fn c08_sink1() { write::sink(1) }
    fn c08_sink2() { write::sink(2) }
    fn c08_sink3() { write::sink(3) }
    fn c08_default2() { write::sink_default(2) }
    fn c08_trickle() { write::trickle() }
    fn c08_kinds() { write::kinds() }
    fn c08_flush() { write::flush_again() }
    fn c08_full() { write::full() }
    fn c09_cut() { read::one_cut(1) }
    fn c09_cut_bad() { read::one_cut(6) }
    fn c09_cuts2() { read::two_cuts() }
    fn c09_pieces() { read::equal_pieces(6) }
    fn c09_failing() { read::failing() }
    fn c09_kinds() { read::failing_kinds() }
    fn c09_roads() { read::roads() }
    fn c09_bytes() { read::roads_bytes(1) }
    fn c09_bytes2() { read::roads_bytes(2) }
    fn c09_bytes3() { read::roads_bytes(3) }
    fn c10_global() { read::global() }
    fn c10_local() { read::local(false) }
    fn c10_local_full() { read::local(true) }
    fn c10_blanks2() { read::any_blanks(2) }
    fn c10_blanks4() { read::any_blanks(4) }
    fn c10_names2() { read::names(2) }
    fn c16_words2() { damage::words(2) }
    fn c16_words3() { damage::words(3) }
    fn c16_dropped3() { damage::dropped(3) }
    fn c16_dropped4() { damage::dropped(4) }
    fn c16_ended3() { damage::ended(3) }
    fn c16_counts2() { damage::counts(2, 3) }
    fn c16_rows() { damage::rows() }
    fn c16_misplaced2() { damage::misplaced(2) }
    fn c16_misplaced3() { damage::misplaced(3) }
    fn c16_no_channels() { damage::no_channels() }
    fn c16_hier3() { any::hierarchy_lines_any(3, any::HIER, any::What::Errors) }
    fn c16_motion3() { any::motion_lines_any(3, any::What::Errors) }
    fn c16_motion5() { any::motion_lines_any(5, any::What::Errors) }
    fn c16_window1() { any::window(1, 0, any::DOC_LEN, any::What::Errors) }
    fn c16_errors() { damage::edit_errors() }
    fn c02_large() { large::skeleton(&[40, 130, 300]) }
    fn c03_large() { large::motion() }
    fn c04_large() { large::channels(&[40, 130]) }
    fn c05_large() { large::one_tree(&[40, 130, 300]) }
    fn c06_large() { large::round_trip(&[40, 130]) }
    fn c06_frames() { large::round_trip_frames() }
    fn c07_large() { large::options(&[30, 80]) }
    fn c08_large() { large::sink() }
    fn c09_large() { large::pieces() }
    fn c10_large() { large::layout() }
    fn c11_large() { large::insert() }
    fn c12_large() { large::remove() }
    fn c13_large() { large::history() }
    fn c14_large() { large::views() }
    fn c15_large() { large::channel_text() }
    fn c16_large() { large::faults() }
    fn c17_large() { large::navigate(&[40, 130, 300]) }
    fn c19_large() { large::equality() }
    #[cfg(feature = "builder")]
    fn c18_big() { large::literal() }
    #[cfg(feature = "builder")]
    fn c18_frames() { large::literal_frames() }
    fn c10_between() { read::blank_between(1) }
    #[cfg(feature = "builder")]
    fn c18_shapes3() { build::shapes(3, &[0, 1, 2]) }
    #[cfg(feature = "builder")]
    fn c18_shapes4() { build::shapes(4, &[0, 2]) }
    #[cfg(feature = "builder")]
    fn c18_shapes6() { build::shapes(6, &[1]) }
    #[cfg(feature = "builder")]
    fn c18_lists3() { build::lists(3) }
    #[cfg(feature = "builder")]
    fn c18_lists9() { build::lists_long() }
    #[cfg(feature = "builder")]
    fn c18_motion() { build::motion(3) }
    #[cfg(feature = "builder")]
    fn c18_large() { build::large() }
    #[cfg(feature = "builder")]
    fn c06_built4() { build::written(4) }
    #[cfg(feature = "literals")]
    fn c18_literals() { build::literals() }
    #[cfg(feature = "literals")]
    fn c18_empty() { build::empties() }
}
