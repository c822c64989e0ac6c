//! What the crate reports, as neutral values.

use opentype::layout::{self, class, context, correction, coverage, feature, language, lookup, script};
use opentype::layout::{ChainedContext, Class, Context, Correction, Coverage, Directory};
use opentype::layout::{Features, Lookups, Scripts};
use opentype::tables::color_palettes as cpal;
use opentype::tables::font_variations as fvar;
use opentype::tables::glyph_definition as gdef;
use opentype::tables::glyph_positioning as gpos;
use opentype::tables::glyph_substitution as gsub;
use opentype::tape::Read;
use opentype::truetype::{q32, Tag};
use opentype::variations::item;
use opentype::Result;

use crate::spec::Kind;
use crate::value::V;

pub trait Val {
    fn val(&self) -> V;
}

macro_rules! integer {
    ($($t:ty),*) => ($(impl Val for $t {
        fn val(&self) -> V {
            V::I(*self as i64)
        }
    })*);
}

integer!(u8, u16, i16, u32, i32);

macro_rules! wrapped {
    ($($t:ty),*) => ($(impl Val for $t {
        fn val(&self) -> V {
            V::I(self.0 as i64)
        }
    })*);
}

wrapped!(q32);

/// The bits together with what the accessors make of them.
macro_rules! flags {
    ($($t:ty { $($mask:literal => $f:ident),* $(,)? })*) => ($(impl Val for $t {
        fn val(&self) -> V {
            $(if self.$f() != (self.0 & $mask != 0) {
                return V::E(concat!(stringify!($t), "::", stringify!($f)), Box::new(V::I(self.0 as i64)));
            })*
            if self.0 != <$t as Into<u16>>::into(*self) {
                return V::E(concat!(stringify!($t), "::into"), Box::new(V::I(self.0 as i64)));
            }
            V::I(self.0 as i64)
        }
    })*);
}

flags! {
    lookup::Flags {
        0x0001 => is_right_to_left,
        0x0002 => should_ignore_base_glyphs,
        0x0004 => should_ignore_ligature,
        0x0008 => should_ignore_marks,
        0x0010 => has_mark_filtering,
    }
    gpos::Flags {
        0x0001 => has_x_placement,
        0x0002 => has_y_placement,
        0x0004 => has_x_advance,
        0x0008 => has_y_advance,
        0x0010 => has_x_placement_correction,
        0x0020 => has_y_placement_correction,
        0x0040 => has_x_advance_correction,
        0x0080 => has_y_advance_correction,
    }
    fvar::AxisFlags { 0x0001 => is_hidden }
    fvar::InstanceFlags {}
}

impl Val for opentype::truetype::tables::names::NameID {
    fn val(&self) -> V {
        V::I(u16::from(*self) as i64)
    }
}

impl Val for Tag {
    fn val(&self) -> V {
        V::T(self.0)
    }
}

impl<T: Val> Val for Option<T> {
    fn val(&self) -> V {
        self.as_ref().map_or(V::N, Val::val)
    }
}

impl<T: Val> Val for Vec<T> {
    fn val(&self) -> V {
        V::L(self.iter().map(Val::val).collect())
    }
}

/// Bytes are kept together.
struct Bytes<'l>(&'l Vec<u8>);

impl Val for Bytes<'_> {
    fn val(&self) -> V {
        V::B(self.0.clone())
    }
}

macro_rules! fields {
    ($($t:ty { $($f:ident),* $(,)? })*) => ($(impl Val for $t {
        fn val(&self) -> V {
            V::S(vec![$((stringify!($f), self.$f.val())),*])
        }
    })*);
}

macro_rules! variants {
    ($($($t:ident)::+ { $($v:ident),* $(,)? })*) => ($(impl Val for $($t)::+ {
        fn val(&self) -> V {
            use $($t)::+ as E;
            match self {
                $(E::$v(value) => V::e(stringify!($v), value.val()),)*
            }
        }
    })*);
}

variants! {
    Coverage { Format1, Format2 }
    Class { Format1, Format2 }
    Correction { Device, Variation }
    Context { Format1, Format2, Format3 }
    ChainedContext { Format1, Format2, Format3 }
    gdef::Header { Version1, Version12, Version13 }
    gdef::Caret { Format1, Format2, Format3 }
    gsub::Type {
        SingleSubstitution, MultipleSubstitution, AlternateSubstitution, LigatureSubstitution,
        ContextualSubstitution, ChainedContextualSubstitution, ExtensionSubstitution,
        ReverseChainedContextualSubstibution,
    }
    gsub::SingleSubstitution { Format1, Format2 }
    gpos::Type {
        SingleAdjustment, PairAdjustment, CursiveAttachment, MarkToBaseAttachment,
        MarkToLigatureAttachment, MarkToMarkAttachment, ContextualPositioning,
        ChainedContextualPositioning, ExtensionPositioning,
    }
    gpos::SingleAdjustment { Format1, Format2 }
    gpos::PairAdjustment { Format1, Format2 }
    gpos::Anchor { Format1, Format2, Format3 }
    cpal::Header { Version0, Version1 }
}

fields! {
    coverage::Coverage1 { format, glyph_count, glyph_ids }
    coverage::Coverage2 { format, record_count, records }
    coverage::Record { start_glyph_id, end_glyph_id, index }
    class::Class1 { format, start_glyph_id, glyph_count, indices }
    class::Class2 { format, record_count, records }
    class::Record { start_glyph_id, end_glyph_id, index }
    correction::Device { start_size, end_size, format, deltas }
    correction::Variation { outer_index, inner_index, format }

    context::Context1 { format, coverage_offset, record_count, record_offsets, coverage, records }
    context::Context2 {
        format, coverage_offset, class_offset, record_count, record_offsets, coverage, class,
        records,
    }
    context::Context3 {
        format, glyph_count, action_count, coverage_offsets, actions, coverages,
    }
    context::ChainedContext1 {
        format, coverage_offset, record_count, record_offsets, coverage, records,
    }
    context::ChainedContext2 {
        format, coverage_offset, backward_class_offset, class_offset, forward_class_offset,
        record_count, record_offsets, coverage, backward_class, class, forward_class, records,
    }
    context::ChainedContext3 {
        format, backward_glyph_count, backward_coverage_offsets, glyph_count, coverage_offsets,
        forward_glyph_count, forward_coverage_offsets, action_count, actions, backward_coverages,
        coverages, forward_coverages,
    }
    context::Record { glyph_count, action_count, glyph_ids, actions }
    context::Records { count, offsets, records }
    context::ClassRecord { glyph_count, action_count, indices, actions }
    context::ClassRecords { count, offsets, records }
    context::ChainedRecord {
        backward_glyph_count, backward_glyph_ids, glyph_count, glyph_ids, forward_glyph_count,
        forward_glyph_ids, action_count, actions,
    }
    context::ChainedRecords { count, offsets, records }
    context::ChainedClassRecord {
        backward_glyph_count, backward_indices, glyph_count, indices, forward_glyph_count,
        forward_indices, action_count, actions,
    }
    context::ChainedClassRecords { count, offsets, records }
    context::Action { position_index, lookup_index }

    Scripts { count, headers, records }
    script::Header { tag, offset }
    script::Record {
        default_language_offset, language_count, language_headers, default_language,
        language_records,
    }
    language::Header { tag, offset }
    language::Record {
        lookup_order_offset, required_feature_index, feature_index_count, feature_indices,
    }
    Features { count, headers, records }
    feature::Header { tag, offset }
    feature::Variations { major_version, minor_version, count }

    item::Store { format, region_offset, count, offsets, records }

    gdef::GlyphDefinition {
        header, glyph_class, attachments, ligatures, mark_class, marks, variations,
    }
    gdef::Header1 {
        major_version, minor_version, glyph_class_offset, attachment_offset, ligature_offset,
        mark_class_offset,
    }
    gdef::Header12 {
        major_version, minor_version, glyph_class_offset, attachment_offset, ligature_offset,
        mark_class_offset, mark_offset,
    }
    gdef::Header13 {
        major_version, minor_version, glyph_class_offset, attachment_offset, ligature_offset,
        mark_class_offset, mark_offset, variation_offset,
    }
    gdef::Attachment { index_count, indices }
    gdef::Attachments { coverage_offset, count, offsets, coverage, records }
    gdef::Caret1 { format, coordinate }
    gdef::Caret2 { format, index }
    gdef::Caret3 { format, coordinate, correction_offset, correction }
    gdef::Ligature { caret_count, caret_offsets, carets }
    gdef::Ligatures { coverage_offset, count, offsets, coverage, records }
    gdef::Marks { format, count, coverage_offsets, coverages }

    gsub::SingleSubstitution1 { format, coverage_offset, delta_glyph_id, coverage }
    gsub::SingleSubstitution2 { format, coverage_offset, glyph_count, glyph_ids, coverage }
    gsub::MultipleSubstitution {
        format, coverage_offset, record_count, record_offsets, coverage, records,
    }
    gsub::AlternateSubstitution {
        format, coverage_offset, record_count, record_offsets, coverage, records,
    }
    gsub::LigatureSubstitution {
        format, coverage_offset, record_count, record_offsets, coverage, records,
    }
    gsub::ReverseChainedContextualSubstibution {
        format, coverage_offset, backward_glyph_count, backward_coverage_offsets,
        forward_glyph_count, forward_coverage_offsets, glyph_count, glyph_ids, coverage,
        backward_coverages, forward_coverages,
    }
    gsub::Alternates { glyph_count, glyph_ids }
    gsub::Sequence { glyph_count, glyph_ids }
    gsub::Ligature { glyph_id, glyph_count, glyph_ids }
    gsub::Ligatures { count, offsets, records }

    gpos::SingleAdjustment1 { format, coverage_offset, value_flags, value, coverage }
    gpos::SingleAdjustment2 {
        format, coverage_offset, value_flags, value_count, values, coverage,
    }
    gpos::PairAdjustment1 {
        format, coverage_offset, value1_flags, value2_flags, record_count, record_offsets,
        coverage, records,
    }
    gpos::PairAdjustment2 {
        format, coverage_offset, value1_flags, value2_flags, class1_offset, class2_offset,
        class1_count, class2_count, records, coverage, class1, class2,
    }
    gpos::CursiveAttachment { format, coverage_offset, connection_count, connections, coverage }
    gpos::MarkToBaseAttachment {
        format, mark_coverage_offset, base_coverage_offset, mark_class_count, marks_offset,
        bases_offset, mark_coverage, base_coverage, marks, bases,
    }
    gpos::MarkToLigatureAttachment {
        format, mark_coverage_offset, ligature_coverage_offset, mark_class_count, marks_offset,
        ligatures_offset, mark_coverage, ligature_coverage, marks, ligatures,
    }
    gpos::MarkToMarkAttachment {
        format, mark1_coverage_offset, mark2_coverage_offset, mark_class_count, mark1s_offset,
        mark2s_offset, mark1_coverage, mark2_coverage, mark1s, mark2s,
    }
    gpos::Anchor1 { format, x, y }
    gpos::Anchor2 { format, x, y, index }
    gpos::Anchor3 {
        format, x, y, x_correction_offset, y_correction_offset, x_correction, y_correction,
    }
    gpos::Base { anchor_offsets, anchors }
    gpos::Bases { count, records }
    gpos::Component { anchor_offsets, anchors }
    gpos::Connection { start_anchor_offset, end_anchor_offset, start_anchor, end_anchor }
    gpos::Ligature { count, components }
    gpos::Ligatures { count, offsets, records }
    gpos::Mark1 { class_id, anchor_offset, anchor }
    gpos::Mark1s { count, records }
    gpos::Mark2 { anchor_offsets, anchors }
    gpos::Mark2s { count, records }
    gpos::Pair1 { glyph2_id, value1, value2 }
    gpos::Pair1s { count, records }
    gpos::Pair2 { value1, value2 }
    gpos::Pair2s { records }
    gpos::Single {
        x_placement, y_placement, x_advance, y_advance, x_placement_correction_offset,
        y_placement_correction_offset, x_advance_correction_offset, y_advance_correction_offset,
        x_placement_correction, y_placement_correction, x_advance_correction,
        y_advance_correction,
    }

    cpal::Header0 {
        version, entry_count, palette_count, color_count, color_offset, color_indices,
    }
    cpal::Header1 {
        version, entry_count, palette_count, color_count, color_offset, color_indices,
    }
    cpal::Color { blue, green, red, alpha }

    fvar::FontVariations { header, axis_records, instance_records }
    fvar::Header {
        major_version, minor_version, axis_offset, reserved, axis_count, axis_size,
        instance_count, instance_size,
    }
    fvar::AxisRecord { tag, min_value, default_value, max_value, flags, name_id }
    fvar::InstanceRecord { subfamily_name_id, flags, coordinates, postscript_name_id }
}

impl Val for feature::Record {
    fn val(&self) -> V {
        V::S(vec![
            ("parameter_offset", self.parameter_offset.val()),
            ("lookup_index_count", self.lookup_index_count.val()),
            ("lookup_indices", self.lookup_indices.val()),
            // Their content is not interpreted.
            ("parameters", self.parameters.as_ref().map_or(V::N, |_| V::I(1))),
        ])
    }
}

impl<T: Val> Val for Lookups<T> {
    fn val(&self) -> V {
        V::S(vec![
            ("count", self.count.val()),
            ("offsets", self.offsets.val()),
            ("records", self.records.val()),
        ])
    }
}

impl<T: Val> Val for lookup::Record<T> {
    fn val(&self) -> V {
        V::S(vec![
            ("r#type", self.r#type.val()),
            ("flags", self.flags.val()),
            ("table_count", self.table_count.val()),
            ("table_offsets", self.table_offsets.val()),
            ("mark_filtering_set", self.mark_filtering_set.val()),
            ("tables", self.tables.val()),
        ])
    }
}

impl<T: Val> Val for Directory<T> {
    fn val(&self) -> V {
        V::S(vec![
            ("major_version", self.major_version.val()),
            ("minor_version", self.minor_version.val()),
            ("script_offset", self.script_offset.val()),
            ("feature_offset", self.feature_offset.val()),
            ("lookup_offset", self.lookup_offset.val()),
            ("variation_offset", self.variation_offset.val()),
            ("scripts", self.scripts.val()),
            ("features", self.features.val()),
            ("lookups", self.lookups.val()),
            ("variations", self.variations.val()),
        ])
    }
}

impl Val for item::Record {
    fn val(&self) -> V {
        V::S(vec![
            ("item_count", self.item_count.val()),
            ("short_delta_count", self.short_delta_count.val()),
            ("region_count", self.region_count.val()),
            ("region_indices", self.region_indices.val()),
            ("deltas", Bytes(&self.deltas).val()),
        ])
    }
}

macro_rules! extension {
    ($($t:ty),*) => ($(impl Val for $t {
        fn val(&self) -> V {
            V::S(vec![
                ("format", self.format.val()),
                ("r#type", self.r#type.val()),
                ("target", self.offset.val()),
            ])
        }
    })*);
}

extension!(gsub::ExtensionSubstitution, gpos::ExtensionPositioning);

impl Val for cpal::ColorPalettes {
    fn val(&self) -> V {
        V::S(vec![
            ("header", self.header.val()),
            ("colors", self.colors.val()),
            (
                "palettes",
                V::L(self.iter().map(|palette| V::L(palette.map(Val::val).collect())).collect()),
            ),
        ])
    }
}

/// A value read, still in the form in which the crate gives it.
pub trait Whole: Val {
    /// The memory that a copy of it takes.
    fn size_of_copy(&self) -> i64;
}

fn size_of<T>(copy: impl Fn() -> T) -> i64 {
    let before = crate::alloc::live().0;
    let copy = Box::new(copy());
    let size = crate::alloc::live().0 - before;
    drop(copy);
    size
}

impl<T: Val + Clone> Whole for T {
    fn size_of_copy(&self) -> i64 {
        size_of(|| self.clone())
    }
}

impl Whole for Alone<cpal::ColorPalettes> {
    fn size_of_copy(&self) -> i64 {
        size_of(|| (self.0.header.clone(), self.0.colors.clone()))
    }
}

/// What cannot be copied.
pub struct Alone<T>(T);

impl<T: Val> Val for Alone<T> {
    fn val(&self) -> V {
        self.0.val()
    }
}

/// Read a structure through the crate at the current position.
pub fn read_whole<T: Read>(kind: Kind, tape: &mut T) -> Result<Box<dyn Whole>> {
    fn take<U: opentype::value::Read + Whole + 'static, T: Read>(
        tape: &mut T,
    ) -> Result<Box<dyn Whole>> {
        Ok(Box::new(tape.take::<U>()?))
    }
    fn given<U, T: Read>(tape: &mut T, parameter: U::Parameter) -> Result<Box<dyn Whole>>
    where
        U: opentype::walue::Read<'static> + Whole + 'static,
    {
        Ok(Box::new(tape.take_given::<U>(parameter)?))
    }
    match kind {
        Kind::Gsub => take::<gsub::GlyphSubstitution, T>(tape),
        Kind::Gpos => take::<gpos::GlyphPositioning, T>(tape),
        Kind::Gdef => take::<gdef::GlyphDefinition, T>(tape),
        Kind::Cpal => Ok(Box::new(Alone(tape.take::<cpal::ColorPalettes>()?))),
        Kind::Fvar => take::<fvar::FontVariations, T>(tape),
        Kind::Scripts => take::<Scripts, T>(tape),
        Kind::Script => take::<script::Record, T>(tape),
        Kind::LangSys => take::<language::Record, T>(tape),
        Kind::Features => take::<Features, T>(tape),
        Kind::Feature => take::<feature::Record, T>(tape),
        Kind::SubLookups => take::<Lookups<gsub::Type>, T>(tape),
        Kind::PosLookups => take::<Lookups<gpos::Type>, T>(tape),
        Kind::Context => take::<layout::Context, T>(tape),
        Kind::Chained => take::<layout::ChainedContext, T>(tape),
        Kind::Coverage => take::<Coverage, T>(tape),
        Kind::Class => take::<Class, T>(tape),
        Kind::Correction => take::<Correction, T>(tape),
        Kind::Store => take::<item::Store, T>(tape),
        Kind::StoreRecord => take::<item::Record, T>(tape),
        Kind::Attachments => take::<gdef::Attachments, T>(tape),
        Kind::CaretLigatures => take::<gdef::Ligatures, T>(tape),
        Kind::Caret => take::<gdef::Caret, T>(tape),
        Kind::MarkSets => take::<gdef::Marks, T>(tape),
        Kind::Anchor => take::<gpos::Anchor, T>(tape),
        Kind::Mark1s => take::<gpos::Mark1s, T>(tape),
        Kind::Sub(t) => given::<gsub::Type, T>(tape, t),
        Kind::Pos(t) => given::<gpos::Type, T>(tape, t),
        Kind::Bases(n) => given::<gpos::Bases, T>(tape, n),
        Kind::PosLigatures(n) => given::<gpos::Ligatures, T>(tape, n),
        Kind::Mark2s(n) => given::<gpos::Mark2s, T>(tape, n),
        Kind::Pair1s(a, b) => given::<gpos::Pair1s, T>(tape, (gpos::Flags(a), gpos::Flags(b))),
        Kind::Single(f) => {
            let position = tape.stream_position()?;
            given::<gpos::Single, T>(tape, (position, gpos::Flags(f)))
        }
    }
}

pub fn read_v<T: Read>(kind: Kind, tape: &mut T) -> Result<V> {
    Ok(read_whole(kind, tape)?.val())
}

/// What can be done with what was read, other than looking at it.
///
/// The two structures are of one kind; a copy of the first is made and also replaces the second.
pub fn copies<T: Read>(kind: Kind, one: &mut T, two: &mut T) -> Result<std::result::Result<(), String>> {
    fn plain<U: Val + Clone + std::fmt::Debug>(one: U, two: U) -> std::result::Result<(), String> {
        let expected = one.val();
        let shown = format!("{one:?}");
        let same = |what: &str, value: &U| match crate::value::diff(&expected, &value.val()) {
            Some(difference) => Err(format!("{what}: {difference}")),
            None if format!("{value:?}") != shown => Err(format!("{what} is shown differently")),
            None => Ok(()),
        };
        let copy = one.clone();
        same("a copy", &copy)?;
        same("what has been copied", &one)?;
        let mut replaced = two;
        replaced.clone_from(&one);
        same("a copy in place of another value", &replaced)?;
        drop(one);
        same("a copy without the original", &copy)?;
        let again = replaced.clone();
        drop(replaced);
        same("a copy of a copy", &again)?;
        if format!("{again:#?}").is_empty() {
            return Err("nothing is shown".into());
        }
        Ok(())
    }
    fn take<U, T: Read>(one: &mut T, two: &mut T) -> Result<std::result::Result<(), String>>
    where
        U: opentype::value::Read + Val + Clone + std::fmt::Debug,
    {
        Ok(plain::<U>(one.take()?, two.take()?))
    }
    fn given<U, T: Read>(
        one: &mut T,
        two: &mut T,
        parameter: impl Fn() -> U::Parameter,
    ) -> Result<std::result::Result<(), String>>
    where
        U: opentype::walue::Read<'static> + Val + Clone + std::fmt::Debug,
    {
        Ok(plain::<U>(one.take_given(parameter())?, two.take_given(parameter())?))
    }
    match kind {
        Kind::Gsub => take::<gsub::GlyphSubstitution, T>(one, two),
        Kind::Gpos => take::<gpos::GlyphPositioning, T>(one, two),
        Kind::Gdef => take::<gdef::GlyphDefinition, T>(one, two),
        Kind::Cpal => {
            let (one, two): (cpal::ColorPalettes, cpal::ColorPalettes) = (one.take()?, two.take()?);
            Ok(plain(one.header, two.header).and(plain(one.colors, two.colors)))
        }
        Kind::Fvar => take::<fvar::FontVariations, T>(one, two),
        Kind::Scripts => take::<Scripts, T>(one, two),
        Kind::Script => take::<script::Record, T>(one, two),
        Kind::LangSys => take::<language::Record, T>(one, two),
        Kind::Features => take::<Features, T>(one, two),
        Kind::Feature => take::<feature::Record, T>(one, two),
        Kind::SubLookups => take::<Lookups<gsub::Type>, T>(one, two),
        Kind::PosLookups => take::<Lookups<gpos::Type>, T>(one, two),
        Kind::Context => take::<layout::Context, T>(one, two),
        Kind::Chained => take::<layout::ChainedContext, T>(one, two),
        Kind::Coverage => take::<Coverage, T>(one, two),
        Kind::Class => take::<Class, T>(one, two),
        Kind::Correction => take::<Correction, T>(one, two),
        Kind::Store => take::<item::Store, T>(one, two),
        Kind::StoreRecord => take::<item::Record, T>(one, two),
        Kind::Attachments => take::<gdef::Attachments, T>(one, two),
        Kind::CaretLigatures => take::<gdef::Ligatures, T>(one, two),
        Kind::Caret => take::<gdef::Caret, T>(one, two),
        Kind::MarkSets => take::<gdef::Marks, T>(one, two),
        Kind::Anchor => take::<gpos::Anchor, T>(one, two),
        Kind::Mark1s => take::<gpos::Mark1s, T>(one, two),
        Kind::Sub(t) => given::<gsub::Type, T>(one, two, || t),
        Kind::Pos(t) => given::<gpos::Type, T>(one, two, || t),
        Kind::Bases(n) => given::<gpos::Bases, T>(one, two, || n),
        Kind::PosLigatures(n) => given::<gpos::Ligatures, T>(one, two, || n),
        Kind::Mark2s(n) => given::<gpos::Mark2s, T>(one, two, || n),
        Kind::Pair1s(a, b) => given::<gpos::Pair1s, T>(one, two, || (gpos::Flags(a), gpos::Flags(b))),
        // Values on their own are read at the start.
        Kind::Single(f) => given::<gpos::Single, T>(one, two, || (0, gpos::Flags(f))),
    }
}

/// The values made without anything to read.
pub fn defaults() -> Vec<(&'static str, V)> {
    macro_rules! all(($($t:ty,)*) => (vec![$((stringify!($t), <$t>::default().val()),)*]));
    all!(
        Coverage, coverage::Coverage1, coverage::Coverage2, coverage::Record,
        Class, class::Class1, class::Class2, class::Record,
        Correction, Scripts, script::Record, script::Header, language::Record, language::Header,
        Features, feature::Record, feature::Header, Lookups<gsub::Type>, Lookups<gpos::Type>,
        item::Store, item::Record, gdef::Header, gdef::Attachments, gdef::Attachment, gdef::Ligatures,
        gdef::Ligature, gdef::Marks, gdef::GlyphDefinition,
        gpos::Anchor, gpos::Mark1s, gpos::Mark1, gpos::Mark2s, gpos::Bases, gpos::Ligatures, gpos::Single,
        gpos::Connection, gpos::Pair1s,
        gsub::Ligatures, gsub::Ligature, gsub::Sequence, gsub::Alternates,
        context::Record, context::Records, context::ChainedRecord, context::ClassRecord,
        fvar::FontVariations, fvar::InstanceRecord, fvar::AxisRecord, cpal::Color,
    )
}

/// Say what is wrong with flags of some bits, if anything.
pub fn flags_problem(bits: u16) -> Option<String> {
    macro_rules! each(
        ($($t:ty, $reserved:literal, $make:expr;)*) => ({
            $(
                let name = stringify!($t);
                let flags: $t = $make(bits);
                if flags.val() != V::I(bits as i64) {
                    return Some(format!("{name} of {bits:#018b}: {:?}", flags.val()));
                }
                if flags.is_invalid() != (bits & $reserved != 0) {
                    return Some(format!("{name} of {bits:#018b} are invalid: {}", flags.is_invalid()));
                }
                let mut bytes: Vec<u8> = vec![];
                if opentype::tape::Write::give(&mut bytes, &flags).is_err() || bytes != bits.to_be_bytes() {
                    return Some(format!("{name} of {bits:#018b} are written as {bytes:?}"));
                }
                let read = std::io::Cursor::new(bits.to_be_bytes().to_vec()).take::<$t>();
                match (read, bits & $reserved) {
                    (Ok(read), 0) if read == flags && read.val() == flags.val() => {}
                    (Err(_), 1..) => {}
                    (read, _) => return Some(format!("{name} of {bits:#018b} are read as {read:?}")),
                }
                let other: $t = $make(bits ^ 1 << (bits % 16));
                if flags == other || format!("{flags:?}") == format!("{other:?}") || format!("{flags}") == format!("{other}") {
                    return Some(format!("{name} of {bits:#018b} are taken for {other:?}"));
                }
            )*
            None
        });
    );
    each! {
        lookup::Flags, 0x00E0, lookup::Flags;
        gpos::Flags, 0xFF00, gpos::Flags;
        fvar::AxisFlags, 0xFFFE, fvar::AxisFlags;
        fvar::InstanceFlags, 0xFFFF, fvar::InstanceFlags;
    }
}
