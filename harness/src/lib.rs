//! Analysis roots.  Nothing in this crate is ever executed: it only names, at concrete types,
//! the public entry points of /repo whose monomorphic bodies the extractor reads.
#![allow(clippy::all, dead_code, unused)]
#![feature(try_trait_v2)]
pub mod model;
use std::io;

use redscript::ast::*;
use redscript::bundle::*;
use redscript::bytecode::*;
use redscript::decode::*;
use redscript::definition::*;
use redscript::encode::*;
use redscript::mapper::*;
use redscript::Ref;
use redscript_decompiler::error::Error as DError;
use redscript_decompiler::files::*;
use redscript_decompiler::print::*;
use redscript_decompiler::Decompiler;

/// An abstract byte source.
pub struct In(());
/// An abstract byte sink.
pub struct Out(());

extern "C" {
    fn vp_opaque() -> usize;
}

impl io::Read for In {
    fn read(&mut self, _: &mut [u8]) -> io::Result<usize> {
        Ok(unsafe { vp_opaque() })
    }
}
impl io::Seek for In {
    fn seek(&mut self, _: io::SeekFrom) -> io::Result<u64> {
        Ok(unsafe { vp_opaque() } as u64)
    }
}
impl io::Write for Out {
    fn write(&mut self, _: &[u8]) -> io::Result<usize> {
        Ok(unsafe { vp_opaque() })
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl io::Seek for Out {
    fn seek(&mut self, _: io::SeekFrom) -> io::Result<u64> {
        Ok(unsafe { vp_opaque() } as u64)
    }
}

macro_rules! codec {
    ($($dec:ident $enc:ident $t:ty;)*) => {
        $(
            pub fn $dec(i: &mut In) -> io::Result<$t> { <$t as Decode>::decode(i) }
            pub fn $enc(v: &$t, o: &mut Out) -> io::Result<()> { <$t as Encode>::encode(v, o) }
        )*
    };
}

codec! {
    dec_i64 enc_i64 i64;
    dec_i32 enc_i32 i32;
    dec_i16 enc_i16 i16;
    dec_i8 enc_i8 i8;
    dec_u64 enc_u64 u64;
    dec_u32 enc_u32 u32;
    dec_u16 enc_u16 u16;
    dec_u8 enc_u8 u8;
    dec_bool enc_bool bool;
    dec_f64 enc_f64 f64;
    dec_f32 enc_f32 f32;
    dec_class enc_class Class;
    dec_enum enc_enum Enum;
    dec_function enc_function Function;
    dec_field enc_field Field;
    dec_type enc_type Type;
    dec_local enc_local Local;
    dec_param enc_param Parameter;
    dec_source_file enc_source_file SourceFile;
    dec_source_ref enc_source_ref SourceReference;
    dec_property enc_property Property;
    dec_visibility enc_visibility Visibility;
    dec_field_flags enc_field_flags FieldFlags;
    dec_local_flags enc_local_flags LocalFlags;
    dec_param_flags enc_param_flags ParameterFlags;
    dec_class_flags enc_class_flags ClassFlags;
    dec_function_flags enc_function_flags FunctionFlags;
    dec_instr enc_instr Instr<Offset>;
    dec_code enc_code Code<Offset>;
    dec_offset enc_offset Offset;
    dec_breakpoint enc_breakpoint Breakpoint;
    dec_profiling enc_profiling StartProfiling;
    dec_header enc_header Header;
    dec_def_header enc_def_header DefinitionHeader;
    dec_def_type enc_def_type DefinitionType;
    dec_timestamp enc_timestamp Timestamp;
    dec_pool_index enc_pool_index PoolIndex<CName>;
    dec_bytes4 enc_bytes4 [u8; 4];
}
pub fn enc_any_def(v: &AnyDefinition, o: &mut Out) -> io::Result<()> { v.encode(o) }
pub fn dec_any_def(i: &mut In, h: &DefinitionHeader) -> io::Result<Definition> { Definition::decode(i, h) }
pub fn any_def_type(v: &AnyDefinition) -> DefinitionType { v.type_() }
pub fn dec_string(i: &mut In) -> io::Result<String> { <String as Decode>::decode(i) }
pub fn enc_str(v: &&str, o: &mut Out) -> io::Result<()> { <&str as Encode>::encode(v, o) }

pub fn load(i: &mut In) -> io::Result<ScriptBundle> { ScriptBundle::load(i) }
pub fn save(b: &ScriptBundle, o: &mut Out) -> io::Result<()> { b.save(o) }
pub fn pool_decode(i: &mut In, h: &Header) -> io::Result<ConstantPool> { ConstantPool::decode(i, h) }
pub fn pool_encode(p: &ConstantPool, o: &mut Out, h: &Header) -> io::Result<Header> { p.encode(o, h) }

// bytecode
pub fn instr_size(i: &Instr<Offset>) -> u16 { i.size() }
pub fn instr_size_label(i: &Instr<Label>) -> u16 { i.size() }
pub fn resolve_labels(i: Instr<Label>, l: Location, t: &[Location]) -> Instr<Offset> { i.resolve_labels(l, t) }
pub fn loc_relative(a: &Location, b: Location) -> Offset { a.relative(b) }
pub fn loc_new(v: u16) -> Location { Location::new(v) }
pub fn off_absolute(a: &Offset, b: Location) -> Location { a.absolute(b) }
pub fn off_new(v: i16) -> Offset { Offset::new(v) }
pub fn code_new(v: Vec<Instr<Offset>>) -> Code<Offset> { Code::new(v) }
pub fn code_is_empty(c: &Code<Offset>) -> bool { c.is_empty() }
pub fn code_len(c: &Code<Offset>) -> usize { c.len() }
pub fn code_cursor(c: &Code<Offset>) -> CodeCursor<'_, Offset> { c.cursor() }
pub fn code_iter(c: &Code<Offset>) -> CodeIter<'_, Offset> { c.iter() }
pub fn code_as_ref(c: &Code<Offset>) -> &[Instr<Offset>] { c.as_ref() }
pub fn code_as_mut(c: &mut Code<Offset>) -> &mut [Instr<Offset>] { c.as_mut() }
pub fn cursor_pop(c: &mut CodeCursor<'_, Offset>) -> Result<Instr<Offset>, CursorError> { c.pop() }
pub fn cursor_peek(c: &CodeCursor<'_, Offset>) -> Option<Instr<Offset>> { c.peek() }
pub fn cursor_pos(c: &CodeCursor<'_, Offset>) -> Location { c.pos() }
pub fn cursor_range<'a>(c: &'a CodeCursor<'a, Offset>, a: Location, b: Location) -> Result<CodeIter<'a, Offset>, CursorError> { c.range(a, b) }
pub fn cursor_seek_abs(c: &mut CodeCursor<'_, Offset>, l: Location) -> Result<(), CursorError> { c.seek_abs(l) }
pub fn cursor_seek_rel(c: &mut CodeCursor<'_, Offset>, l: Offset) -> Result<(), CursorError> { c.seek_rel(l) }
pub fn iter_next<'a>(c: &mut CodeIter<'a, Offset>) -> Option<(Location, Instr<Offset>)> { c.next() }
pub fn intrinsic_args(o: &IntrinsicOp) -> u8 { o.arg_count() }
pub fn intrinsic_name(o: IntrinsicOp) -> &'static str { o.into() }
pub fn intrinsic_parse(s: &str) -> Option<IntrinsicOp> { s.parse().ok() }
pub fn binop_name(o: BinOp) -> &'static str { o.into() }
pub fn unop_name(o: UnOp) -> &'static str { o.into() }
pub fn binop_parse(s: &str) -> Option<BinOp> { s.parse().ok() }
pub fn unop_parse(s: &str) -> Option<UnOp> { s.parse().ok() }

// pool
pub fn pool_function<'a>(p: &'a ConstantPool, i: PoolIndex<Function>) -> Result<&'a Function, PoolError> { p.function(i) }
pub fn pool_function_mut<'a>(p: &'a mut ConstantPool, i: PoolIndex<Function>) -> Result<&'a mut Function, PoolError> { p.function_mut(i) }
pub fn pool_field<'a>(p: &'a ConstantPool, i: PoolIndex<Field>) -> Result<&'a Field, PoolError> { p.field(i) }
pub fn pool_field_mut<'a>(p: &'a mut ConstantPool, i: PoolIndex<Field>) -> Result<&'a mut Field, PoolError> { p.field_mut(i) }
pub fn pool_parameter<'a>(p: &'a ConstantPool, i: PoolIndex<Parameter>) -> Result<&'a Parameter, PoolError> { p.parameter(i) }
pub fn pool_local<'a>(p: &'a ConstantPool, i: PoolIndex<Local>) -> Result<&'a Local, PoolError> { p.local(i) }
pub fn pool_type<'a>(p: &'a ConstantPool, i: PoolIndex<Type>) -> Result<&'a Type, PoolError> { p.type_(i) }
pub fn pool_class<'a>(p: &'a ConstantPool, i: PoolIndex<Class>) -> Result<&'a Class, PoolError> { p.class(i) }
pub fn pool_class_mut<'a>(p: &'a mut ConstantPool, i: PoolIndex<Class>) -> Result<&'a mut Class, PoolError> { p.class_mut(i) }
pub fn pool_enum<'a>(p: &'a ConstantPool, i: PoolIndex<Enum>) -> Result<&'a Enum, PoolError> { p.enum_(i) }
pub fn pool_enum_value(p: &ConstantPool, i: PoolIndex<i64>) -> Result<i64, PoolError> { p.enum_value(i) }
pub fn pool_definition<'a>(p: &'a ConstantPool, i: PoolIndex<Function>) -> Result<&'a Definition, PoolError> { p.definition(i) }
pub fn pool_def_name(p: &ConstantPool, i: PoolIndex<Function>) -> Result<Ref<str>, PoolError> { p.def_name(i) }
pub fn pool_definitions<'a>(p: &'a ConstantPool) -> Vec<(PoolIndex<Definition>, &'a Definition)> { p.definitions().collect() }
pub fn pool_roots<'a>(p: &'a ConstantPool) -> Vec<(PoolIndex<Definition>, &'a Definition)> { p.roots().collect() }
pub fn pool_reserve(p: &mut ConstantPool) -> PoolIndex<Class> { p.reserve() }
pub fn pool_put(p: &mut ConstantPool, i: PoolIndex<Class>, d: Definition) { p.put_definition(i, d) }
pub fn pool_swap(p: &mut ConstantPool, i: PoolIndex<Class>, j: PoolIndex<Class>) { p.swap_definition(i, j) }
pub fn pool_add(p: &mut ConstantPool, d: Definition) -> PoolIndex<Class> { p.add_definition(d) }
pub fn pool_stub(p: &mut ConstantPool, n: PoolIndex<CName>) -> PoolIndex<Class> { p.stub_definition(n) }
pub fn pool_rename(p: &mut ConstantPool, i: PoolIndex<Class>, n: PoolIndex<CName>) { p.rename(i, n) }
pub fn names_get(s: &Strings<CName>, i: PoolIndex<CName>) -> Result<Ref<str>, PoolError> { s.get(i) }
pub fn names_get_ref<'a>(s: &'a Strings<CName>, i: PoolIndex<CName>) -> Result<&'a str, PoolError> { s.get_ref(i) }
pub fn names_get_index(s: &Strings<CName>, n: &str) -> Option<PoolIndex<CName>> { s.get_index(n) }
pub fn names_add(s: &mut Strings<CName>, n: Ref<str>) -> PoolIndex<CName> { s.add(n) }
pub fn strs_get(s: &Strings<String>, i: PoolIndex<String>) -> Result<Ref<str>, PoolError> { s.get(i) }
pub fn strs_get_ref<'a>(s: &'a Strings<String>, i: PoolIndex<String>) -> Result<&'a str, PoolError> { s.get_ref(i) }
pub fn strs_get_index(s: &Strings<String>, n: &str) -> Option<PoolIndex<String>> { s.get_index(n) }
pub fn strs_add(s: &mut Strings<String>, n: Ref<str>) -> PoolIndex<String> { s.add(n) }
pub fn tdb_get(s: &Strings<TweakDbId>, i: PoolIndex<TweakDbId>) -> Result<Ref<str>, PoolError> { s.get(i) }
pub fn tdb_add(s: &mut Strings<TweakDbId>, n: Ref<str>) -> PoolIndex<TweakDbId> { s.add(n) }
pub fn res_get(s: &Strings<Resource>, i: PoolIndex<Resource>) -> Result<Ref<str>, PoolError> { s.get(i) }
pub fn res_add(s: &mut Strings<Resource>, n: Ref<str>) -> PoolIndex<Resource> { s.add(n) }
pub fn strs_default() -> Strings<String> { Strings::default() }
pub fn idx_new(v: u32) -> PoolIndex<Class> { PoolIndex::new(v) }
pub fn idx_is_undefined(i: &PoolIndex<Class>) -> bool { i.is_undefined() }
pub fn idx_cast(i: &PoolIndex<Class>) -> PoolIndex<Function> { i.cast() }
pub fn idx_eq(i: &PoolIndex<Class>, j: &PoolIndex<Class>) -> bool { i == j }
pub fn idx_cmp(i: &PoolIndex<Class>, j: &PoolIndex<Class>) -> std::cmp::Ordering { i.cmp(j) }
pub fn idx_into(i: PoolIndex<Class>) -> u32 { i.into() }

// definitions
pub fn def_source(d: &Definition) -> Option<&SourceReference> { d.source() }
pub fn def_first_line(d: &Definition, p: &ConstantPool) -> Option<u32> { d.first_line(p) }
pub fn def_local(n: PoolIndex<CName>, p: PoolIndex<Function>, v: Local) -> Definition { Definition::local(n, p, v) }
pub fn def_param(n: PoolIndex<CName>, p: PoolIndex<Function>, v: Parameter) -> Definition { Definition::param(n, p, v) }
pub fn def_class(n: PoolIndex<CName>, v: Class) -> Definition { Definition::class(n, v) }
pub fn def_type(n: PoolIndex<CName>, v: Type) -> Definition { Definition::type_(n, v) }
pub fn def_function(n: PoolIndex<CName>, p: PoolIndex<Class>, v: Function) -> Definition { Definition::function(n, p, v) }
pub fn def_field(n: PoolIndex<CName>, p: PoolIndex<Class>, v: Field) -> Definition { Definition::field(n, p, v) }
pub fn def_enum(n: PoolIndex<CName>, v: Enum) -> Definition { Definition::enum_(n, v) }
pub fn def_enum_value(n: PoolIndex<CName>, p: PoolIndex<Enum>, v: i64) -> Definition { Definition::enum_value(n, p, v) }
pub fn def_source_file(v: SourceFile) -> Definition { Definition::source_file(v) }
pub fn source_ref_default() -> SourceReference { SourceReference::default() }

// mapper
pub fn map_pool(m: &PoolMapper<MultiMapper<PoolIndex<Class>>, MultiMapper<PoolIndex<Function>>>, p: &mut ConstantPool) { m.map(p) }
pub fn map_apply(m: &MultiMapper<PoolIndex<Class>>, v: PoolIndex<Class>) -> PoolIndex<Class> { m.apply(v) }
pub fn map_noop(m: &NoopMapper<PoolIndex<Class>>, v: PoolIndex<Class>) -> PoolIndex<Class> { m.apply(v) }
pub fn map_build(c: MultiMapper<PoolIndex<Class>>, f: MultiMapper<PoolIndex<Function>>) -> PoolMapper<MultiMapper<PoolIndex<Class>>, MultiMapper<PoolIndex<Function>>> {
    PoolMapper::default().with_class_mapper(c).with_function_mapper(f)
}

// ast
pub fn expr_is_empty(e: &Expr<SourceAst>) -> bool { e.is_empty() }
pub fn expr_span(e: &Expr<SourceAst>) -> Span { e.span() }
pub fn binop_precedence(b: BinOp) -> usize { b.precedence() }
pub fn binop_associative(b: BinOp) -> bool { b.associative() }
pub fn binop_does_associate(b: BinOp, p: BinOp) -> bool { b.does_associate(p) }
pub fn span_merge(a: &Span, b: Span) -> Span { a.merge(b) }
pub fn span_contains(a: &Span, b: Pos) -> bool { a.contains(b) }
pub fn span_compare(a: &Span, b: Pos) -> std::cmp::Ordering { a.compare_pos(b) }
pub fn pos_new(a: usize) -> Pos { Pos::new(a) }
pub fn pos_add(a: Pos, b: usize) -> Pos { a + b }
pub fn pos_sub(a: Pos, b: usize) -> Pos { a - b }
pub fn pos_into(a: Pos) -> usize { a.into() }
pub fn tn_new(n: Ident, a: Vec<TypeName>) -> TypeName { TypeName::new(n, a) }
pub fn tn_name(t: &TypeName) -> Ident { t.name() }
pub fn tn_arguments(t: &TypeName) -> &[TypeName] { t.arguments() }
pub fn tn_kind(t: &TypeName) -> Kind { t.kind() }
pub fn tn_mangled(t: &TypeName) -> Ident { t.mangled() }
pub fn tn_pretty(t: &TypeName) -> Ident { t.pretty() }
pub fn tn_repr(t: &TypeName) -> Ident { t.repr() }
pub fn tn_from_repr(s: &str) -> TypeName { TypeName::from_repr(s) }

// decompiler
pub fn decompiled(f: &Function, d: &Definition, p: &ConstantPool) -> Result<Seq<SourceAst>, DError> { Decompiler::decompiled(f, d, p) }
pub fn print_definition(o: &mut Out, d: &Definition, p: &ConstantPool, depth: usize, m: OutputMode) -> Result<(), DError> { write_definition(o, d, p, depth, m) }
pub fn file_index<'a>(p: &'a ConstantPool) -> FileIndex<'a> { FileIndex::from_pool(p) }
pub fn file_entries<'a>(f: &'a FileIndex<'a>) -> Vec<FileEntry<'a>> { f.iter().collect() }

// flag sets
pub fn flags_field_get(f: &FieldFlags) -> [bool; 11] { [f.is_native(), f.is_editable(), f.is_inline(), f.is_const(), f.is_replicated(), f.has_hint(), f.is_instance_editable(), f.has_default(), f.is_persistent(), f.is_test_only(), f.is_browsable()] }
pub fn flags_field_with(f: FieldFlags, b: bool) -> [FieldFlags; 11] { [f.with_is_native(b), f.with_is_editable(b), f.with_is_inline(b), f.with_is_const(b), f.with_is_replicated(b), f.with_has_hint(b), f.with_is_instance_editable(b), f.with_has_default(b), f.with_is_persistent(b), f.with_is_test_only(b), f.with_is_browsable(b)] }
pub fn flags_field_new() -> FieldFlags { FieldFlags::new() }
pub fn flags_local_get(f: &LocalFlags) -> [bool; 1] { [f.is_const()] }
pub fn flags_local_with(f: LocalFlags, b: bool) -> [LocalFlags; 1] { [f.with_is_const(b)] }
pub fn flags_local_new() -> LocalFlags { LocalFlags::new() }
pub fn flags_parameter_get(f: &ParameterFlags) -> [bool; 4] { [f.is_optional(), f.is_out(), f.is_short_circuit(), f.is_const()] }
pub fn flags_parameter_with(f: ParameterFlags, b: bool) -> [ParameterFlags; 4] { [f.with_is_optional(b), f.with_is_out(b), f.with_is_short_circuit(b), f.with_is_const(b)] }
pub fn flags_parameter_new() -> ParameterFlags { ParameterFlags::new() }
pub fn flags_class_get(f: &ClassFlags) -> [bool; 9] { [f.is_native(), f.is_abstract(), f.is_final(), f.is_struct(), f.has_functions(), f.has_fields(), f.is_import_only(), f.is_test_only(), f.has_overrides()] }
pub fn flags_class_with(f: ClassFlags, b: bool) -> [ClassFlags; 9] { [f.with_is_native(b), f.with_is_abstract(b), f.with_is_final(b), f.with_is_struct(b), f.with_has_functions(b), f.with_has_fields(b), f.with_is_import_only(b), f.with_is_test_only(b), f.with_has_overrides(b)] }
pub fn flags_class_new() -> ClassFlags { ClassFlags::new() }
pub fn flags_function_get(f: &FunctionFlags) -> [bool; 23] { [f.is_static(), f.is_exec(), f.is_timer(), f.is_final(), f.is_native(), f.unk1(), f.is_callback(), f.is_operator(), f.has_return_value(), f.has_base_method(), f.has_parameters(), f.has_locals(), f.has_body(), f.is_cast(), f.is_implicit_cast(), f.is_thread_safe(), f.is_const(), f.unk2(), f.unk3(), f.is_quest(), f.unk4(), f.unk5(), f.unk6()] }
pub fn flags_function_with(f: FunctionFlags, b: bool) -> [FunctionFlags; 23] { [f.with_is_static(b), f.with_is_exec(b), f.with_is_timer(b), f.with_is_final(b), f.with_is_native(b), f.with_unk1(b), f.with_is_callback(b), f.with_is_operator(b), f.with_has_return_value(b), f.with_has_base_method(b), f.with_has_parameters(b), f.with_has_locals(b), f.with_has_body(b), f.with_is_cast(b), f.with_is_implicit_cast(b), f.with_is_thread_safe(b), f.with_is_const(b), f.with_unk2(b), f.with_unk3(b), f.with_is_quest(b), f.with_unk4(b), f.with_unk5(b), f.with_unk6(b)] }
pub fn flags_function_new() -> FunctionFlags { FunctionFlags::new() }
pub fn timestamp_get(t: &Timestamp) -> (u8, u8, u16, u16, u8, u8, u16) { (t.day(), t.month(), t.year(), t.millis(), t.seconds(), t.minutes(), t.hours()) }
pub fn visibility_cmp(a: &Visibility, b: &Visibility) -> std::cmp::Ordering { a.cmp(b) }
pub fn visibility_eq(a: &Visibility, b: &Visibility) -> bool { a == b }

// texts
pub fn text_timestamp(v: &Timestamp, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { std::fmt::Display::fmt(v, f) }
pub fn text_location(v: &Location, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { std::fmt::Display::fmt(v, f) }
pub fn text_pos(v: &Pos, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { std::fmt::Display::fmt(v, f) }
pub fn text_index(v: &PoolIndex<Class>, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { std::fmt::Display::fmt(v, f) }
pub fn text_visibility(v: &Visibility, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { std::fmt::Display::fmt(v, f) }
pub fn text_type_name(v: &TypeName, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { std::fmt::Display::fmt(v, f) }
pub fn text_pool_error(v: &PoolError, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { std::fmt::Display::fmt(v, f) }
pub fn text_cursor_error(v: &CursorError, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { std::fmt::Display::fmt(v, f) }
pub fn text_decompile_error(v: &DError, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { std::fmt::Display::fmt(v, f) }
pub fn error_from_pool(e: PoolError) -> DError { e.into() }
pub fn error_from_cursor(e: CursorError) -> DError { e.into() }
pub fn error_from_io(e: io::Error) -> DError { e.into() }
pub fn error_from_fmt(e: std::fmt::Error) -> DError { e.into() }

// streams that move fewer bytes than asked for
pub struct Part(());
extern "C" {
    fn vp_part_read(s: &mut Part, n: usize, buf: *mut u8) -> PartResult;
    fn vp_part_write(s: &mut Part, buf: &[u8]) -> PartResult;
    fn vp_part_flush(s: &mut Part) -> PartFlush;
    fn vp_part_seek(s: &mut Part, p: i64) -> PartResult;
}
pub type PartResult = Result<usize, io::Error>;
pub type PartFlush = Result<(), io::Error>;
impl io::Read for Part {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> { unsafe { vp_part_read(self, buf.len(), buf.as_mut_ptr()) } }
}
impl io::Write for Part {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> { unsafe { vp_part_write(self, buf) } }
    fn flush(&mut self) -> io::Result<()> { unsafe { vp_part_flush(self) } }
}
impl io::Seek for Part {
    fn seek(&mut self, p: io::SeekFrom) -> io::Result<u64> {
        let n = match p { io::SeekFrom::Start(x) => x as i64, io::SeekFrom::Current(x) => x, io::SeekFrom::End(x) => x };
        unsafe { vp_part_seek(self, n) }.map(|x| x as u64)
    }
}
pub fn stream_new(p: Part) -> redscript::io::StreamOffset<Part> { redscript::io::StreamOffset::new_zeroed(p) }
pub fn stream_seekable(p: Part) -> io::Result<redscript::io::StreamOffset<Part>> { redscript::io::StreamOffset::new_seekable(p) }
pub fn stream_offset(s: &redscript::io::StreamOffset<Part>) -> usize { s.offset() }
pub fn stream_inner(s: redscript::io::StreamOffset<Part>) -> Part { s.into_inner() }
pub fn stream_read(s: &mut redscript::io::StreamOffset<Part>, buf: &mut [u8]) -> io::Result<usize> { io::Read::read(s, buf) }
pub fn stream_write(s: &mut redscript::io::StreamOffset<Part>, buf: &[u8]) -> io::Result<usize> { io::Write::write(s, buf) }
pub fn stream_flush(s: &mut redscript::io::StreamOffset<Part>) -> io::Result<()> { io::Write::flush(s) }

pub fn tn_consts() -> ((TypeName, TypeName, TypeName, TypeName, TypeName, TypeName, TypeName, TypeName, TypeName), (TypeName, TypeName, TypeName, TypeName, TypeName, TypeName, TypeName, TypeName)) { ((TypeName::BOOL, TypeName::CNAME, TypeName::DOUBLE, TypeName::FLOAT, TypeName::INT16, TypeName::INT32, TypeName::INT64, TypeName::INT8, TypeName::RESOURCE), (TypeName::STRING, TypeName::TWEAKDB_ID, TypeName::UINT16, TypeName::UINT32, TypeName::UINT64, TypeName::UINT8, TypeName::VARIANT, TypeName::VOID)) }
pub struct ByteHasher(Vec<u8>);
impl std::hash::Hasher for ByteHasher {
    fn finish(&self) -> u64 { 0 }
    fn write(&mut self, b: &[u8]) { self.0.extend_from_slice(b) }
}
pub fn idx_hash(i: &PoolIndex<Class>, h: &mut ByteHasher) { std::hash::Hash::hash(i, h) }
pub fn idx_clone(i: &PoolIndex<Class>) -> PoolIndex<Class> { i.clone() }
pub fn idx_consts() -> (PoolIndex<Class>, PoolIndex<Class>) { (PoolIndex::UNDEFINED, PoolIndex::DEFAULT_SOURCE) }
pub fn span_zero() -> (Pos, Span) { (Pos::ZERO, Span::ZERO) }
pub fn loc_consts() -> (Location, Location) { (Location::ZERO, Location::MAX) }
pub fn def_default() -> Definition { Definition::DEFAULT }
pub fn code_empty() -> Code<Offset> { Code::EMPTY }
pub fn tn_eq(a: &TypeName, b: &TypeName) -> bool { a == b }
