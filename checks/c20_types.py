from lib import *
import spec
ID = 'C20'
TITLE = 'Types, scalars and buffers convert without loss'
RULE = 'the normal form of every conversion between Vortex and Arrow types, arrays and schemas, of every constructor, cast, comparison and conversion of scalars and primitive values, of every question asked of a data type, and of the buffer they rest on, compared with the declared table'
TYPE = r'''
@ <&vortex_dtype::dtype::DType as core::convert::From<vortex_dtype::ptype::PType>>::from args=item
Primitive(F16, NonNullable) <- item is F16
Primitive(F32, NonNullable) <- item is F32
Primitive(F64, NonNullable) <- item is F64
Primitive(I16, NonNullable) <- item is I16
Primitive(I32, NonNullable) <- item is I32
Primitive(I64, NonNullable) <- item is I64
Primitive(I8, NonNullable) <- item is I8
Primitive(U16, NonNullable) <- item is U16
Primitive(U32, NonNullable) <- item is U32
Primitive(U64, NonNullable) <- item is U64
Primitive(U8, NonNullable) <- item is U8
@ <bool as core::convert::From<vortex_dtype::nullability::Nullability>>::from args=value
value is Nullable
@ <f32 as vortex_dtype::ptype::NativePType>::PTYPE
F32
@ <f32 as vortex_dtype::ptype::NativePType>::compare args=self,other
total_cmp(self, other)
@ <f32 as vortex_dtype::ptype::NativePType>::is_eq args=self,other
Eq(to_bits(other), to_bits(self))
@ <f32 as vortex_dtype::ptype::NativePType>::is_nan args=self
is_nan(self)
@ <f32 as vortex_dtype::ptype::ToBytes>::to_le_bytes args=self
from_raw_parts(self, 4)
@ <f32 as vortex_dtype::ptype::TryFromBytes>::try_from_le_bytes args=bytes
f32.from_le_bytes(TryFrom.try_from(bytes))
@ <f64 as vortex_dtype::ptype::NativePType>::PTYPE
F64
@ <f64 as vortex_dtype::ptype::NativePType>::compare args=self,other
total_cmp(self, other)
@ <f64 as vortex_dtype::ptype::NativePType>::is_eq args=self,other
Eq(to_bits(other), to_bits(self))
@ <f64 as vortex_dtype::ptype::NativePType>::is_nan args=self
is_nan(self)
@ <f64 as vortex_dtype::ptype::ToBytes>::to_le_bytes args=self
from_raw_parts(self, 8)
@ <f64 as vortex_dtype::ptype::TryFromBytes>::try_from_le_bytes args=bytes
f64.from_le_bytes(TryFrom.try_from(bytes))
@ <half::binary16::f16 as vortex_dtype::ptype::NativePType>::PTYPE
F16
@ <half::binary16::f16 as vortex_dtype::ptype::NativePType>::compare args=self,other
total_cmp(self, other)
@ <half::binary16::f16 as vortex_dtype::ptype::NativePType>::is_eq args=self,other
Eq(to_bits(other), to_bits(self))
@ <half::binary16::f16 as vortex_dtype::ptype::NativePType>::is_nan args=self
is_nan(self)
@ <half::binary16::f16 as vortex_dtype::ptype::ToBytes>::to_le_bytes args=self
from_raw_parts(self, 2)
@ <half::binary16::f16 as vortex_dtype::ptype::TryFromBytes>::try_from_le_bytes args=bytes
f16.from_le_bytes(TryFrom.try_from(bytes))
@ <i16 as vortex_dtype::ptype::NativePType>::PTYPE
I16
@ <i16 as vortex_dtype::ptype::NativePType>::compare args=self,other
cmp(self, other)
@ <i16 as vortex_dtype::ptype::NativePType>::is_eq args=self,other
Eq(other, self)
@ <i16 as vortex_dtype::ptype::NativePType>::is_nan args=self
False
@ <i16 as vortex_dtype::ptype::ToBytes>::to_le_bytes args=self
from_raw_parts(self, 2)
@ <i16 as vortex_dtype::ptype::TryFromBytes>::try_from_le_bytes args=bytes
i16.from_le_bytes(TryFrom.try_from(bytes))
@ <i32 as vortex_dtype::ptype::NativePType>::PTYPE
I32
@ <i32 as vortex_dtype::ptype::NativePType>::compare args=self,other
cmp(self, other)
@ <i32 as vortex_dtype::ptype::NativePType>::is_eq args=self,other
Eq(other, self)
@ <i32 as vortex_dtype::ptype::NativePType>::is_nan args=self
False
@ <i32 as vortex_dtype::ptype::ToBytes>::to_le_bytes args=self
from_raw_parts(self, 4)
@ <i32 as vortex_dtype::ptype::TryFromBytes>::try_from_le_bytes args=bytes
i32.from_le_bytes(TryFrom.try_from(bytes))
@ <i64 as vortex_dtype::ptype::NativePType>::PTYPE
I64
@ <i64 as vortex_dtype::ptype::NativePType>::compare args=self,other
cmp(self, other)
@ <i64 as vortex_dtype::ptype::NativePType>::is_eq args=self,other
Eq(other, self)
@ <i64 as vortex_dtype::ptype::NativePType>::is_nan args=self
False
@ <i64 as vortex_dtype::ptype::ToBytes>::to_le_bytes args=self
from_raw_parts(self, 8)
@ <i64 as vortex_dtype::ptype::TryFromBytes>::try_from_le_bytes args=bytes
i64.from_le_bytes(TryFrom.try_from(bytes))
@ <i8 as vortex_dtype::ptype::NativePType>::PTYPE
I8
@ <i8 as vortex_dtype::ptype::NativePType>::compare args=self,other
cmp(self, other)
@ <i8 as vortex_dtype::ptype::NativePType>::is_eq args=self,other
Eq(other, self)
@ <i8 as vortex_dtype::ptype::NativePType>::is_nan args=self
False
@ <i8 as vortex_dtype::ptype::ToBytes>::to_le_bytes args=self
from_raw_parts(self, 1)
@ <i8 as vortex_dtype::ptype::TryFromBytes>::try_from_le_bytes args=bytes
i8.from_le_bytes(TryFrom.try_from(bytes))
@ <u16 as vortex_dtype::ptype::NativePType>::PTYPE
U16
@ <u16 as vortex_dtype::ptype::NativePType>::compare args=self,other
cmp(self, other)
@ <u16 as vortex_dtype::ptype::NativePType>::is_eq args=self,other
Eq(other, self)
@ <u16 as vortex_dtype::ptype::NativePType>::is_nan args=self
False
@ <u16 as vortex_dtype::ptype::ToBytes>::to_le_bytes args=self
from_raw_parts(self, 2)
@ <u16 as vortex_dtype::ptype::TryFromBytes>::try_from_le_bytes args=bytes
u16.from_le_bytes(TryFrom.try_from(bytes))
@ <u32 as vortex_dtype::ptype::NativePType>::PTYPE
U32
@ <u32 as vortex_dtype::ptype::NativePType>::compare args=self,other
cmp(self, other)
@ <u32 as vortex_dtype::ptype::NativePType>::is_eq args=self,other
Eq(other, self)
@ <u32 as vortex_dtype::ptype::NativePType>::is_nan args=self
False
@ <u32 as vortex_dtype::ptype::ToBytes>::to_le_bytes args=self
from_raw_parts(self, 4)
@ <u32 as vortex_dtype::ptype::TryFromBytes>::try_from_le_bytes args=bytes
u32.from_le_bytes(TryFrom.try_from(bytes))
@ <u64 as vortex_dtype::ptype::NativePType>::PTYPE
U64
@ <u64 as vortex_dtype::ptype::NativePType>::compare args=self,other
cmp(self, other)
@ <u64 as vortex_dtype::ptype::NativePType>::is_eq args=self,other
Eq(other, self)
@ <u64 as vortex_dtype::ptype::NativePType>::is_nan args=self
False
@ <u64 as vortex_dtype::ptype::ToBytes>::to_le_bytes args=self
from_raw_parts(self, 8)
@ <u64 as vortex_dtype::ptype::TryFromBytes>::try_from_le_bytes args=bytes
u64.from_le_bytes(TryFrom.try_from(bytes))
@ <u8 as vortex_dtype::ptype::NativePType>::PTYPE
U8
@ <u8 as vortex_dtype::ptype::NativePType>::compare args=self,other
cmp(self, other)
@ <u8 as vortex_dtype::ptype::NativePType>::is_eq args=self,other
Eq(other, self)
@ <u8 as vortex_dtype::ptype::NativePType>::is_nan args=self
False
@ <u8 as vortex_dtype::ptype::ToBytes>::to_le_bytes args=self
from_raw_parts(self, 1)
@ <u8 as vortex_dtype::ptype::TryFromBytes>::try_from_le_bytes args=bytes
u8.from_le_bytes(TryFrom.try_from(bytes))
@ <vortex_dtype::dtype::DType as core::convert::From<vortex_dtype::ptype::PType>>::from args=item
Primitive(item, NonNullable)
@ <vortex_dtype::dtype::DType as core::convert::From<vortex_schema::Schema>>::from args=value
value.0
@ <vortex_dtype::dtype::DType>::BYTES
Primitive(U8, NonNullable)
@ <vortex_dtype::dtype::DType>::IDX
Primitive(U64, NonNullable)
@ <vortex_dtype::dtype::DType>::as_nonnullable args=self
Binary(NonNullable) <- self is Binary
Bool(NonNullable) <- self is Bool
Extension(self@Extension.0, NonNullable) <- self is Extension
List(self@List.0, NonNullable) <- self is List
Primitive(self@Primitive.0, NonNullable) <- self is Primitive
Struct(self@Struct.0, NonNullable) <- self is Struct
Utf8(NonNullable) <- self is Utf8
self <- self is Null
@ <vortex_dtype::dtype::DType>::as_nullable args=self
Binary(Nullable) <- self is Binary
Bool(Nullable) <- self is Bool
Extension(self@Extension.0, Nullable) <- self is Extension
List(self@List.0, Nullable) <- self is List
Primitive(self@Primitive.0, Nullable) <- self is Primitive
Struct(self@Struct.0, Nullable) <- self is Struct
Utf8(Nullable) <- self is Utf8
self <- self is Null
@ <vortex_dtype::dtype::DType>::as_struct args=self
None <- self is Binary|Bool|Extension|List|Null|Primitive|Utf8
self@Struct.0 <- self is Struct
@ <vortex_dtype::dtype::DType>::eq_ignore_nullability args=self,other
Eq({Binary(Nullable) <- other is Binary | Bool(Nullable) <- other is Bool | Extension(other@Extension.0, Nullable) <- other is Extension | List(other@List.0, Nullable) <- other is List | Primitive(other@Primitive.0, Nullable) <- other is Primitive | Struct(other@Struct.0, Nullable) <- other is Struct | Utf8(Nullable) <- other is Utf8 | other <- other is Null}, {Binary(Nullable) <- self is Binary | Bool(Nullable) <- self is Bool | Extension(self@Extension.0, Nullable) <- self is Extension | List(self@List.0, Nullable) <- self is List | Primitive(self@Primitive.0, Nullable) <- self is Primitive | Struct(self@Struct.0, Nullable) <- self is Struct | Utf8(Nullable) <- self is Utf8 | self <- self is Null})
@ <vortex_dtype::dtype::DType>::is_boolean args=self
self is Bool
@ <vortex_dtype::dtype::DType>::is_float args=self
Eq(True, TryFrom.try_from(self) is F16|F32|F64)
@ <vortex_dtype::dtype::DType>::is_int args=self
Eq(True, {False <- TryFrom.try_from(self) is F16|F32|F64 | True <- TryFrom.try_from(self) is I16|I32|I64|I8|U16|U32|U64|U8})
@ <vortex_dtype::dtype::DType>::is_signed_int args=self
Eq(True, TryFrom.try_from(self) is I16|I32|I64|I8)
@ <vortex_dtype::dtype::DType>::is_struct args=self
self is Struct
@ <vortex_dtype::dtype::DType>::is_unsigned_int args=self
Eq(True, TryFrom.try_from(self) is U16|U32|U64|U8)
@ <vortex_dtype::dtype::DType>::nullability args=self
nullability(self) <- nullability(self) is NonNullable|Nullable
@ <vortex_dtype::dtype::DType>::with_nullability args=self,nullability
Binary(nullability) <- self is Binary
Bool(nullability) <- self is Bool
Extension(self@Extension.0, nullability) <- self is Extension
List(self@List.0, nullability) <- self is List
Primitive(self@Primitive.0, nullability) <- self is Primitive
Struct(self@Struct.0, nullability) <- self is Struct
Utf8(nullability) <- self is Utf8
self <- self is Null
@ <vortex_dtype::dtype::StructDType>::dtypes args=self
self.dtypes
@ <vortex_dtype::dtype::StructDType>::field_info args=self,field errs=1
FieldInfo({field@Index.0 <- field is Index | iposition(self.names, Eq(elem(self.names), field@Name.0)) <- field is Name}, index(self.names, {field@Index.0 <- field is Index | iposition(self.names, Eq(elem(self.names), field@Name.0)) <- field is Name}), index(self.dtypes, {field@Index.0 <- field is Index | iposition(self.names, Eq(elem(self.names), field@Name.0)) <- field is Name})) <- Lt({field@Index.0 <- field is Index | iposition(self.names, Eq(elem(self.names), field@Name.0)) <- field is Name}, len(self.names))
@ <vortex_dtype::dtype::StructDType>::find_name args=self,name
iposition(self.names, Eq(elem(self.names), name))
@ <vortex_dtype::dtype::StructDType>::names args=self
self.names
@ <vortex_dtype::dtype::StructDType>::new args=names,dtypes
StructDType(names, dtypes)
@ <vortex_dtype::dtype::StructDType>::project args=self,projection
StructDType(each(index(self.names, {elem(projection)@Index.0 <- elem(projection) is Index | iposition(self.names, Eq(elem(projection)@Name.0, elem(self.names))) <- elem(projection) is Name})), each(index(self.dtypes, {elem(projection)@Index.0 <- elem(projection) is Index | iposition(self.names, Eq(elem(projection)@Name.0, elem(self.names))) <- elem(projection) is Name})))
@ <vortex_dtype::extension::ExtDType>::id args=self
self.id
@ <vortex_dtype::extension::ExtDType>::metadata args=self
self.metadata
@ <vortex_dtype::extension::ExtDType>::new args=id,metadata
ExtDType(id, metadata)
@ <vortex_dtype::extension::ExtID as core::convert::AsRef<str>>::as_ref args=self
self.0
@ <vortex_dtype::extension::ExtID as core::convert::From<&str>>::from args=value
ExtID(value)
@ <vortex_dtype::extension::ExtID>::new args=value
ExtID(value)
@ <vortex_dtype::extension::ExtMetadata as core::convert::AsRef<[u8]>>::as_ref args=self
self.0
@ <vortex_dtype::extension::ExtMetadata as core::convert::From<&[u8]>>::from args=value
ExtMetadata(value)
@ <vortex_dtype::extension::ExtMetadata>::new args=value
ExtMetadata(value)
@ <vortex_dtype::field::Field as core::convert::From<&str>>::from args=value
Name(value)
@ <vortex_dtype::field::Field as core::convert::From<alloc::string::String>>::from args=value
Name(value)
@ <vortex_dtype::field::Field as core::convert::From<usize>>::from args=value
Index(value)
@ <vortex_dtype::field::FieldPath as core::convert::From<alloc::vec::Vec<vortex_dtype::field::Field, alloc::alloc::Global>>>::from args=value
FieldPath(value)
@ <vortex_dtype::field::FieldPath as core::convert::From<vortex_dtype::field::Field>>::from args=value
FieldPath([value])
@ <vortex_dtype::field::FieldPath as core::iter::traits::collect::FromIterator<vortex_dtype::field::Field>>::from_iter args=iter
FieldPath(iter)
@ <vortex_dtype::field::FieldPath>::from_name args=name
FieldPath([name])
@ <vortex_dtype::field::FieldPath>::path args=self
self.0
@ <vortex_dtype::field::FieldPath>::root
FieldPath(Vec.new())
@ <vortex_dtype::field::FieldPath>::to_name args=self
index(self.0, 0)@Name.0
@ <vortex_dtype::nullability::Nullability as core::convert::From<bool>>::from args=value
NonNullable <- !value
Nullable <- value
@ <vortex_dtype::ptype::PType as core::convert::TryFrom<&vortex_dtype::dtype::DType>>::try_from args=value
value@Primitive.0
@ <vortex_dtype::ptype::PType>::bit_width args=self
[8*byte_width(self)]
@ <vortex_dtype::ptype::PType>::byte_width args=self
1 <- self is I8|U8
2 <- self is F16|I16|U16
4 <- self is F32|I32|U32
8 <- self is F64|I64|U64
@ <vortex_dtype::ptype::PType>::is_float args=self
self is F16|F32|F64
@ <vortex_dtype::ptype::PType>::is_int args=self
False <- self is F16|F32|F64
True <- self is I16|I32|I64|I8|U16|U32|U64|U8
@ <vortex_dtype::ptype::PType>::is_signed_int args=self
self is I16|I32|I64|I8
@ <vortex_dtype::ptype::PType>::is_unsigned_int args=self
self is U16|U32|U64|U8
@ <vortex_dtype::ptype::PType>::max_value args=self
127 <- self is I8
18446744073709551615 <- self is U64
2147483647 <- self is I32
255 <- self is U8
32767 <- self is I16
4294967295 <- self is U32
65535 <- self is U16
9223372036854775807 <- self is I64
@ <vortex_dtype::ptype::PType>::to_signed args=self
I16 <- self is U16
I32 <- self is U32
I64 <- self is U64
I8 <- self is U8
self <- self is F16|F32|F64|I16|I32|I64|I8
@ <vortex_dtype::ptype::PType>::to_unsigned args=self
U16 <- self is I16
U32 <- self is I32
U64 <- self is I64
U8 <- self is I8
self <- self is F16|F32|F64|U16|U32|U64|U8
@ <vortex_schema::Schema>::dtype args=self
self.0
@ <vortex_schema::Schema>::field_type args=self,field
optfilter(index(self.0@Struct.0.dtypes, {field@Index.0 <- field is Index | iposition(self.0@Struct.0.names, Eq(elem(self.0@Struct.0.names), field@Name.0)) <- field is Name}), Lt({field@Index.0 <- field is Index | iposition(self.0@Struct.0.names, Eq(elem(self.0@Struct.0.names), field@Name.0)) <- field is Name}, len(self.0@Struct.0.dtypes)))
@ <vortex_schema::Schema>::new args=schema_dtype
Schema(schema_dtype)
@ <vortex_schema::Schema>::project args=self,projection
Schema(Struct(StructDType(each(index(self.0@Struct.0.names, {elem(projection@Flat.0)@Index.0 <- elem(projection@Flat.0) is Index | iposition(self.0@Struct.0.names, Eq(elem(projection@Flat.0)@Name.0, elem(self.0@Struct.0.names))) <- elem(projection@Flat.0) is Name})), each(index(self.0@Struct.0.dtypes, {elem(projection@Flat.0)@Index.0 <- elem(projection@Flat.0) is Index | iposition(self.0@Struct.0.names, Eq(elem(projection@Flat.0)@Name.0, elem(self.0@Struct.0.names))) <- elem(projection@Flat.0) is Name}))), self.0@Struct.1)) <- projection is Flat
self <- projection is All
@ <vortex_schema::projection::Projection as core::convert::From<alloc::vec::Vec<usize, alloc::alloc::Global>>>::from args=indices
Flat(each(Index(elem(indices))))
@ <vortex_schema::projection::Projection as core::convert::From<alloc::vec::Vec<vortex_dtype::field::Field, alloc::alloc::Global>>>::from args=indices
Flat(indices)
@ <vortex_schema::projection::Projection>::new args=indices
Flat(each(Index(elem(indices))))
'''
SCALAR = r'''
@ vortex_scalar::serde::proto::deserialize_scalar_value args=dtype,value
Bool(value.kind@BoolValue.0) <- value.kind is BoolValue
Buffer(Arrow(value.kind@BytesValue.0)) <- value.kind is BytesValue
BufferString(BufferString(Arrow(Buffer.from_vec(value.kind@StringValue.0)))) <- value.kind is StringValue
List({each(deserialize_scalar_value(dtype@List.0, elem(value.kind@ListValue.0.values))) <- dtype is List | each(deserialize_scalar_value(elem(dtype@Struct.0.dtypes), elem(value.kind@ListValue.0.values))) <- dtype is Struct}) <- dtype is List|Struct & value.kind is ListValue
Null <- value.kind is NullValue
Primitive(F16(f16.from_bits(TryFrom.try_from(value.kind@Uint32Value.0)))) <- dtype is Primitive & dtype@Primitive.0 is F16 & value.kind is Uint32Value
Primitive(F32(value.kind@FloatValue.0)) <- value.kind is FloatValue
Primitive(F64(value.kind@DoubleValue.0)) <- value.kind is DoubleValue
Primitive(I32(value.kind@Int32Value.0)) <- value.kind is Int32Value
Primitive(I64(value.kind@Int64Value.0)) <- value.kind is Int64Value
Primitive(U32(value.kind@Uint32Value.0)) <- dtype is Primitive & dtype@Primitive.0 is U16|U32|U8 & value.kind is Uint32Value
Primitive(U64(value.kind@Uint64Value.0)) <- value.kind is Uint64Value
@ <vortex_dtype::dtype::DType as vortex_flatbuffers::WriteFlatBuffer>::write_flatbuffer args=self,fbb
WIPOffset.new(value(end_table({fbb.start_table().end_table(start_table(fbb)) <- self is Null | fbb.start_table().push_slot(4, self@Binary.0 is Nullable, False).end_table(start_table(fbb)) <- self is Binary | fbb.start_table().push_slot(4, self@Bool.0 is Nullable, False).end_table(start_table(fbb)) <- self is Bool | fbb.start_table().push_slot(4, self@Utf8.0 is Nullable, False).end_table(start_table(fbb)) <- self is Utf8 | fbb.start_table().push_slot(6, self@Primitive.1 is Nullable, False).push_slot(4, {PType(0) <- self@Primitive.0 is U8 | PType(1) <- self@Primitive.0 is U16 | PType(10) <- self@Primitive.0 is F64 | PType(2) <- self@Primitive.0 is U32 | PType(3) <- self@Primitive.0 is U64 | PType(4) <- self@Primitive.0 is I8 | PType(5) <- self@Primitive.0 is I16 | PType(6) <- self@Primitive.0 is I32 | PType(7) <- self@Primitive.0 is I64 | PType(8) <- self@Primitive.0 is F16 | PType(9) <- self@Primitive.0 is F32}, PType(0)).end_table(start_table(fbb)) <- self is Primitive | fbb.write_flatbuffer(self@List.0).start_table().push_slot_always(4, write_flatbuffer(self@List.0, fbb)).push_slot(6, self@List.1 is Nullable, False).end_table(start_table(fbb.write_flatbuffer(self@List.0))) <- self is List | loop{loop.write_flatbuffer(elem(self@Struct.0.dtypes)) | loop{fbb | loop.create_string(elem(self@Struct.0.names))}.create_vector(each(create_string(loop{fbb | loop.create_string(elem(self@Struct.0.names))}, elem(self@Struct.0.names))))}.create_vector(each(write_flatbuffer(elem(self@Struct.0.dtypes), loop{loop.write_flatbuffer(elem(self@Struct.0.dtypes)) | loop{fbb | loop.create_string(elem(self@Struct.0.names))}.create_vector(each(create_string(loop{fbb | loop.create_string(elem(self@Struct.0.names))}, elem(self@Struct.0.names))))}))).start_table().push_slot_always(6, create_vector(loop{loop.write_flatbuffer(elem(self@Struct.0.dtypes)) | loop{fbb | loop.create_string(elem(self@Struct.0.names))}.create_vector(each(create_string(loop{fbb | loop.create_string(elem(self@Struct.0.names))}, elem(self@Struct.0.names))))}, each(write_flatbuffer(elem(self@Struct.0.dtypes), loop{loop.write_flatbuffer(elem(self@Struct.0.dtypes)) | loop{fbb | loop.create_string(elem(self@Struct.0.names))}.create_vector(each(create_string(loop{fbb | loop.create_string(elem(self@Struct.0.names))}, elem(self@Struct.0.names))))})))).push_slot_always(4, create_vector(loop{fbb | loop.create_string(elem(self@Struct.0.names))}, each(create_string(loop{fbb | loop.create_string(elem(self@Struct.0.names))}, elem(self@Struct.0.names))))).push_slot(8, self@Struct.1 is Nullable, False).end_table(start_table(loop{loop.write_flatbuffer(elem(self@Struct.0.dtypes)) | loop{fbb | loop.create_string(elem(self@Struct.0.names))}.create_vector(each(create_string(loop{fbb | loop.create_string(elem(self@Struct.0.names))}, elem(self@Struct.0.names))))}.create_vector(each(write_flatbuffer(elem(self@Struct.0.dtypes), loop{loop.write_flatbuffer(elem(self@Struct.0.dtypes)) | loop{fbb | loop.create_string(elem(self@Struct.0.names))}.create_vector(each(create_string(loop{fbb | loop.create_string(elem(self@Struct.0.names))}, elem(self@Struct.0.names))))}))))) <- self is Struct | or(loop{fbb.create_string(self@Extension.0.id.0) | fbb.create_string(self@Extension.0.id.0).create_vector(metadata(self@Extension.0).0)}.start_table().push_slot_always(6, create_vector(fbb.create_string(self@Extension.0.id.0), metadata(self@Extension.0).0)), loop{fbb.create_string(self@Extension.0.id.0) | fbb.create_string(self@Extension.0.id.0).create_vector(metadata(self@Extension.0).0)}.start_table()).push_slot_always(4, create_string(fbb, self@Extension.0.id.0)).push_slot(8, self@Extension.1 is Nullable, False).end_table(start_table(loop{fbb.create_string(self@Extension.0.id.0) | fbb.create_string(self@Extension.0.id.0).create_vector(metadata(self@Extension.0).0)})) <- self is Extension}.start_table().push_slot_always(6, {as_union_value(WIPOffset.new(value(end_table(fbb.start_table(), start_table(fbb))))) <- self is Null | as_union_value(WIPOffset.new(value(end_table(fbb.start_table().push_slot(4, self@Binary.0 is Nullable, False), start_table(fbb))))) <- self is Binary | as_union_value(WIPOffset.new(value(end_table(fbb.start_table().push_slot(4, self@Bool.0 is Nullable, False), start_table(fbb))))) <- self is Bool | as_union_value(WIPOffset.new(value(end_table(fbb.start_table().push_slot(4, self@Utf8.0 is Nullable, False), start_table(fbb))))) <- self is Utf8 | as_union_value(WIPOffset.new(value(end_table(fbb.start_table().push_slot(6, self@Primitive.1 is Nullable, False).push_slot(4, {PType(0) <- self@Primitive.0 is U8 | PType(1) <- self@Primitive.0 is U16 | PType(10) <- self@Primitive.0 is F64 | PType(2) <- self@Primitive.0 is U32 | PType(3) <- self@Primitive.0 is U64 | PType(4) <- self@Primitive.0 is I8 | PType(5) <- self@Primitive.0 is I16 | PType(6) <- self@Primitive.0 is I32 | PType(7) <- self@Primitive.0 is I64 | PType(8) <- self@Primitive.0 is F16 | PType(9) <- self@Primitive.0 is F32}, PType(0)), start_table(fbb))))) <- self is Primitive | as_union_value(WIPOffset.new(value(end_table(fbb.write_flatbuffer(self@List.0).start_table().push_slot_always(4, write_flatbuffer(self@List.0, fbb)).push_slot(6, self@List.1 is Nullable, False), start_table(fbb.write_flatbuffer(self@List.0)))))) <- self is List | as_union_value(WIPOffset.new(value(end_table(loop{loop.write_flatbuffer(elem(self@Struct.0.dtypes)) | loop{fbb | loop.create_string(elem(self@Struct.0.names))}.create_vector(each(create_string(loop{fbb | loop.create_string(elem(self@Struct.0.names))}, elem(self@Struct.0.names))))}.create_vector(each(write_flatbuffer(elem(self@Struct.0.dtypes), loop{loop.write_flatbuffer(elem(self@Struct.0.dtypes)) | loop{fbb | loop.create_string(elem(self@Struct.0.names))}.create_vector(each(create_string(loop{fbb | loop.create_string(elem(self@Struct.0.names))}, elem(self@Struct.0.names))))}))).start_table().push_slot_always(6, create_vector(loop{loop.write_flatbuffer(elem(self@Struct.0.dtypes)) | loop{fbb | loop.create_string(elem(self@Struct.0.names))}.create_vector(each(create_string(loop{fbb | loop.create_string(elem(self@Struct.0.names))}, elem(self@Struct.0.names))))}, each(write_flatbuffer(elem(self@Struct.0.dtypes), loop{loop.write_flatbuffer(elem(self@Struct.0.dtypes)) | loop{fbb | loop.create_string(elem(self@Struct.0.names))}.create_vector(each(create_string(loop{fbb | loop.create_string(elem(self@Struct.0.names))}, elem(self@Struct.0.names))))})))).push_slot_always(4, create_vector(loop{fbb | loop.create_string(elem(self@Struct.0.names))}, each(create_string(loop{fbb | loop.create_string(elem(self@Struct.0.names))}, elem(self@Struct.0.names))))).push_slot(8, self@Struct.1 is Nullable, False), start_table(loop{loop.write_flatbuffer(elem(self@Struct.0.dtypes)) | loop{fbb | loop.create_string(elem(self@Struct.0.names))}.create_vector(each(create_string(loop{fbb | loop.create_string(elem(self@Struct.0.names))}, elem(self@Struct.0.names))))}.create_vector(each(write_flatbuffer(elem(self@Struct.0.dtypes), loop{loop.write_flatbuffer(elem(self@Struct.0.dtypes)) | loop{fbb | loop.create_string(elem(self@Struct.0.names))}.create_vector(each(create_string(loop{fbb | loop.create_string(elem(self@Struct.0.names))}, elem(self@Struct.0.names))))})))))))) <- self is Struct | as_union_value(WIPOffset.new(value(end_table(or(loop{fbb.create_string(self@Extension.0.id.0) | fbb.create_string(self@Extension.0.id.0).create_vector(metadata(self@Extension.0).0)}.start_table().push_slot_always(6, create_vector(fbb.create_string(self@Extension.0.id.0), metadata(self@Extension.0).0)), loop{fbb.create_string(self@Extension.0.id.0) | fbb.create_string(self@Extension.0.id.0).create_vector(metadata(self@Extension.0).0)}.start_table()).push_slot_always(4, create_string(fbb, self@Extension.0.id.0)).push_slot(8, self@Extension.1 is Nullable, False), start_table(loop{fbb.create_string(self@Extension.0.id.0) | fbb.create_string(self@Extension.0.id.0).create_vector(metadata(self@Extension.0).0)}))))) <- self is Extension}).push_slot(4, {Type(1) <- self is Null | Type(2) <- self is Bool | Type(3) <- self is Primitive | Type(5) <- self is Utf8 | Type(6) <- self is Binary | Type(7) <- self is Struct | Type(8) <- self is List | Type(9) <- self is Extension}, Type(0)), start_table({fbb.start_table().end_table(start_table(fbb)) <- self is Null | fbb.start_table().push_slot(4, self@Binary.0 is Nullable, False).end_table(start_table(fbb)) <- self is Binary | fbb.start_table().push_slot(4, self@Bool.0 is Nullable, False).end_table(start_table(fbb)) <- self is Bool | fbb.start_table().push_slot(4, self@Utf8.0 is Nullable, False).end_table(start_table(fbb)) <- self is Utf8 | fbb.start_table().push_slot(6, self@Primitive.1 is Nullable, False).push_slot(4, {PType(0) <- self@Primitive.0 is U8 | PType(1) <- self@Primitive.0 is U16 | PType(10) <- self@Primitive.0 is F64 | PType(2) <- self@Primitive.0 is U32 | PType(3) <- self@Primitive.0 is U64 | PType(4) <- self@Primitive.0 is I8 | PType(5) <- self@Primitive.0 is I16 | PType(6) <- self@Primitive.0 is I32 | PType(7) <- self@Primitive.0 is I64 | PType(8) <- self@Primitive.0 is F16 | PType(9) <- self@Primitive.0 is F32}, PType(0)).end_table(start_table(fbb)) <- self is Primitive | fbb.write_flatbuffer(self@List.0).start_table().push_slot_always(4, write_flatbuffer(self@List.0, fbb)).push_slot(6, self@List.1 is Nullable, False).end_table(start_table(fbb.write_flatbuffer(self@List.0))) <- self is List | loop{loop.write_flatbuffer(elem(self@Struct.0.dtypes)) | loop{fbb | loop.create_string(elem(self@Struct.0.names))}.create_vector(each(create_string(loop{fbb | loop.create_string(elem(self@Struct.0.names))}, elem(self@Struct.0.names))))}.create_vector(each(write_flatbuffer(elem(self@Struct.0.dtypes), loop{loop.write_flatbuffer(elem(self@Struct.0.dtypes)) | loop{fbb | loop.create_string(elem(self@Struct.0.names))}.create_vector(each(create_string(loop{fbb | loop.create_string(elem(self@Struct.0.names))}, elem(self@Struct.0.names))))}))).start_table().push_slot_always(6, create_vector(loop{loop.write_flatbuffer(elem(self@Struct.0.dtypes)) | loop{fbb | loop.create_string(elem(self@Struct.0.names))}.create_vector(each(create_string(loop{fbb | loop.create_string(elem(self@Struct.0.names))}, elem(self@Struct.0.names))))}, each(write_flatbuffer(elem(self@Struct.0.dtypes), loop{loop.write_flatbuffer(elem(self@Struct.0.dtypes)) | loop{fbb | loop.create_string(elem(self@Struct.0.names))}.create_vector(each(create_string(loop{fbb | loop.create_string(elem(self@Struct.0.names))}, elem(self@Struct.0.names))))})))).push_slot_always(4, create_vector(loop{fbb | loop.create_string(elem(self@Struct.0.names))}, each(create_string(loop{fbb | loop.create_string(elem(self@Struct.0.names))}, elem(self@Struct.0.names))))).push_slot(8, self@Struct.1 is Nullable, False).end_table(start_table(loop{loop.write_flatbuffer(elem(self@Struct.0.dtypes)) | loop{fbb | loop.create_string(elem(self@Struct.0.names))}.create_vector(each(create_string(loop{fbb | loop.create_string(elem(self@Struct.0.names))}, elem(self@Struct.0.names))))}.create_vector(each(write_flatbuffer(elem(self@Struct.0.dtypes), loop{loop.write_flatbuffer(elem(self@Struct.0.dtypes)) | loop{fbb | loop.create_string(elem(self@Struct.0.names))}.create_vector(each(create_string(loop{fbb | loop.create_string(elem(self@Struct.0.names))}, elem(self@Struct.0.names))))}))))) <- self is Struct | or(loop{fbb.create_string(self@Extension.0.id.0) | fbb.create_string(self@Extension.0.id.0).create_vector(metadata(self@Extension.0).0)}.start_table().push_slot_always(6, create_vector(fbb.create_string(self@Extension.0.id.0), metadata(self@Extension.0).0)), loop{fbb.create_string(self@Extension.0.id.0) | fbb.create_string(self@Extension.0.id.0).create_vector(metadata(self@Extension.0).0)}.start_table()).push_slot_always(4, create_string(fbb, self@Extension.0.id.0)).push_slot(8, self@Extension.1 is Nullable, False).end_table(start_table(loop{fbb.create_string(self@Extension.0.id.0) | fbb.create_string(self@Extension.0.id.0).create_vector(metadata(self@Extension.0).0)})) <- self is Extension}))))
@ <alloc::string::String as core::convert::TryFrom<&vortex_scalar::Scalar>>::try_from args=value
from_utf8_unchecked(TryFrom.try_from(value).0@*)
@ <alloc::string::String as vortex_scalar::scalar_type::ScalarType>::dtype
Utf8(NonNullable)
@ <alloc::vec::Vec<T, alloc::alloc::Global> as core::convert::TryFrom<&vortex_scalar::Scalar>>::try_from args=value
each(try_from(Scalar(dtype(TryFrom.try_from(value))@List.0, elem(or(TryFrom.try_from(value).elements, [])))))
@ <alloc::vec::Vec<alloc::string::String, alloc::alloc::Global> as vortex_scalar::scalar_type::ScalarType>::dtype
List(dtype(), NonNullable)
@ <alloc::vec::Vec<bytes::bytes::Bytes, alloc::alloc::Global> as vortex_scalar::scalar_type::ScalarType>::dtype
List(dtype(), NonNullable)
@ <alloc::vec::Vec<f32, alloc::alloc::Global> as vortex_scalar::scalar_type::ScalarType>::dtype
List(dtype(), NonNullable)
@ <alloc::vec::Vec<f64, alloc::alloc::Global> as vortex_scalar::scalar_type::ScalarType>::dtype
List(dtype(), NonNullable)
@ <alloc::vec::Vec<half::binary16::f16, alloc::alloc::Global> as vortex_scalar::scalar_type::ScalarType>::dtype
List(dtype(), NonNullable)
@ <alloc::vec::Vec<i16, alloc::alloc::Global> as vortex_scalar::scalar_type::ScalarType>::dtype
List(dtype(), NonNullable)
@ <alloc::vec::Vec<i32, alloc::alloc::Global> as vortex_scalar::scalar_type::ScalarType>::dtype
List(dtype(), NonNullable)
@ <alloc::vec::Vec<i64, alloc::alloc::Global> as vortex_scalar::scalar_type::ScalarType>::dtype
List(dtype(), NonNullable)
@ <alloc::vec::Vec<i8, alloc::alloc::Global> as vortex_scalar::scalar_type::ScalarType>::dtype
List(dtype(), NonNullable)
@ <alloc::vec::Vec<u16, alloc::alloc::Global> as vortex_scalar::scalar_type::ScalarType>::dtype
List(dtype(), NonNullable)
@ <alloc::vec::Vec<u32, alloc::alloc::Global> as vortex_scalar::scalar_type::ScalarType>::dtype
List(dtype(), NonNullable)
@ <alloc::vec::Vec<u64, alloc::alloc::Global> as vortex_scalar::scalar_type::ScalarType>::dtype
List(dtype(), NonNullable)
@ <alloc::vec::Vec<usize, alloc::alloc::Global> as vortex_scalar::scalar_type::ScalarType>::dtype
List(dtype(), NonNullable)
@ <alloc::vec::Vec<vortex_buffer::Buffer, alloc::alloc::Global> as vortex_scalar::scalar_type::ScalarType>::dtype
List(dtype(), NonNullable)
@ <alloc::vec::Vec<vortex_buffer::string::BufferString, alloc::alloc::Global> as vortex_scalar::scalar_type::ScalarType>::dtype
List(dtype(), NonNullable)
@ <bool as core::convert::TryFrom<&vortex_scalar::Scalar>>::try_from args=value
TryFrom.try_from(value).value
@ <bool as core::convert::TryFrom<&vortex_scalar::value::ScalarValue>>::try_from args=value
as_bool(value)
@ <bytes::bytes::Bytes as vortex_scalar::scalar_type::ScalarType>::dtype
Binary(NonNullable)
@ <f32 as core::convert::TryFrom<&vortex_scalar::Scalar>>::try_from args=value
as_primitive(TryFrom.try_from(value).pvalue)
@ <f32 as core::convert::TryFrom<&vortex_scalar::value::ScalarValue>>::try_from args=value
TryFrom.try_from(value@Primitive.0)
@ <f32 as core::convert::TryFrom<vortex_scalar::Scalar>>::try_from args=value
TryFrom.try_from(value)
@ <f32 as core::convert::TryFrom<vortex_scalar::pvalue::PValue>>::try_from args=value
{None <- value is I16|I32|I64|I8|U16|U32|U64|U8 | value@F16.0 <- value is F16 | value@F32.0 <- value is F32 | value@F64.0 <- value is F64}
@ <f32 as core::convert::TryFrom<vortex_scalar::value::ScalarValue>>::try_from args=value
TryFrom.try_from(value)
@ <f32 as vortex_scalar::scalar_type::ScalarType>::dtype
Primitive(F32, NonNullable)
@ <f64 as core::convert::TryFrom<&vortex_scalar::Scalar>>::try_from args=value
as_primitive(TryFrom.try_from(value).pvalue)
@ <f64 as core::convert::TryFrom<&vortex_scalar::value::ScalarValue>>::try_from args=value
TryFrom.try_from(value@Primitive.0)
@ <f64 as core::convert::TryFrom<vortex_scalar::Scalar>>::try_from args=value
TryFrom.try_from(value)
@ <f64 as core::convert::TryFrom<vortex_scalar::pvalue::PValue>>::try_from args=value
{None <- value is I16|I32|I64|I8|U16|U32|U64|U8 | value@F16.0 <- value is F16 | value@F32.0 <- value is F32 | value@F64.0 <- value is F64}
@ <f64 as core::convert::TryFrom<vortex_scalar::value::ScalarValue>>::try_from args=value
TryFrom.try_from(value)
@ <f64 as vortex_scalar::scalar_type::ScalarType>::dtype
Primitive(F64, NonNullable)
@ <half::binary16::f16 as core::convert::TryFrom<&vortex_scalar::Scalar>>::try_from args=value
as_primitive(TryFrom.try_from(value).pvalue)
@ <half::binary16::f16 as core::convert::TryFrom<&vortex_scalar::value::ScalarValue>>::try_from args=value
TryFrom.try_from(value@Primitive.0)
@ <half::binary16::f16 as core::convert::TryFrom<vortex_scalar::Scalar>>::try_from args=value
TryFrom.try_from(value)
@ <half::binary16::f16 as core::convert::TryFrom<vortex_scalar::pvalue::PValue>>::try_from args=value
{None <- value is I16|I32|I64|I8 | f16.from_bits(TryFrom.try_from(value@U32.0)) <- value is U32 | f16.from_bits(TryFrom.try_from(value@U64.0)) <- value is U64 | f16.from_bits(value@U16.0) <- value is U16 | f16.from_bits(value@U8.0) <- value is U8 | value@F16.0 <- value is F16 | value@F32.0 <- value is F32 | value@F64.0 <- value is F64}
@ <half::binary16::f16 as core::convert::TryFrom<vortex_scalar::value::ScalarValue>>::try_from args=value
TryFrom.try_from(value)
@ <half::binary16::f16 as vortex_scalar::scalar_type::ScalarType>::dtype
Primitive(F16, NonNullable)
@ <i16 as core::convert::TryFrom<&vortex_scalar::Scalar>>::try_from args=value
as_primitive(TryFrom.try_from(value).pvalue)
@ <i16 as core::convert::TryFrom<&vortex_scalar::value::ScalarValue>>::try_from args=value
TryFrom.try_from(value@Primitive.0)
@ <i16 as core::convert::TryFrom<vortex_scalar::Scalar>>::try_from args=value
TryFrom.try_from(value)
@ <i16 as core::convert::TryFrom<vortex_scalar::pvalue::PValue>>::try_from args=value
{None <- value is F16|F32|F64 | value@I16.0 <- value is I16 | value@I32.0 <- value is I32 | value@I64.0 <- value is I64 | value@I8.0 <- value is I8 | value@U16.0 <- value is U16 | value@U32.0 <- value is U32 | value@U64.0 <- value is U64 | value@U8.0 <- value is U8}
@ <i16 as core::convert::TryFrom<vortex_scalar::value::ScalarValue>>::try_from args=value
TryFrom.try_from(value)
@ <i16 as vortex_scalar::scalar_type::ScalarType>::dtype
Primitive(I16, NonNullable)
@ <i32 as core::convert::TryFrom<&vortex_scalar::Scalar>>::try_from args=value
as_primitive(TryFrom.try_from(value).pvalue)
@ <i32 as core::convert::TryFrom<&vortex_scalar::value::ScalarValue>>::try_from args=value
TryFrom.try_from(value@Primitive.0)
@ <i32 as core::convert::TryFrom<vortex_scalar::Scalar>>::try_from args=value
TryFrom.try_from(value)
@ <i32 as core::convert::TryFrom<vortex_scalar::pvalue::PValue>>::try_from args=value
{None <- value is F16|F32|F64 | value@I16.0 <- value is I16 | value@I32.0 <- value is I32 | value@I64.0 <- value is I64 | value@I8.0 <- value is I8 | value@U16.0 <- value is U16 | value@U32.0 <- value is U32 | value@U64.0 <- value is U64 | value@U8.0 <- value is U8}
@ <i32 as core::convert::TryFrom<vortex_scalar::value::ScalarValue>>::try_from args=value
TryFrom.try_from(value)
@ <i32 as vortex_scalar::scalar_type::ScalarType>::dtype
Primitive(I32, NonNullable)
@ <i64 as core::convert::TryFrom<&vortex_scalar::Scalar>>::try_from args=value
as_primitive(TryFrom.try_from(value).pvalue)
@ <i64 as core::convert::TryFrom<&vortex_scalar::value::ScalarValue>>::try_from args=value
TryFrom.try_from(value@Primitive.0)
@ <i64 as core::convert::TryFrom<vortex_scalar::Scalar>>::try_from args=value
TryFrom.try_from(value)
@ <i64 as core::convert::TryFrom<vortex_scalar::pvalue::PValue>>::try_from args=value
{None <- value is F16|F32|F64 | value@I16.0 <- value is I16 | value@I32.0 <- value is I32 | value@I64.0 <- value is I64 | value@I8.0 <- value is I8 | value@U16.0 <- value is U16 | value@U32.0 <- value is U32 | value@U64.0 <- value is U64 | value@U8.0 <- value is U8}
@ <i64 as core::convert::TryFrom<vortex_scalar::value::ScalarValue>>::try_from args=value
TryFrom.try_from(value)
@ <i64 as vortex_scalar::scalar_type::ScalarType>::dtype
Primitive(I64, NonNullable)
@ <i8 as core::convert::TryFrom<&vortex_scalar::Scalar>>::try_from args=value
as_primitive(TryFrom.try_from(value).pvalue)
@ <i8 as core::convert::TryFrom<&vortex_scalar::value::ScalarValue>>::try_from args=value
TryFrom.try_from(value@Primitive.0)
@ <i8 as core::convert::TryFrom<vortex_scalar::Scalar>>::try_from args=value
TryFrom.try_from(value)
@ <i8 as core::convert::TryFrom<vortex_scalar::pvalue::PValue>>::try_from args=value
{None <- value is F16|F32|F64 | value@I16.0 <- value is I16 | value@I32.0 <- value is I32 | value@I64.0 <- value is I64 | value@I8.0 <- value is I8 | value@U16.0 <- value is U16 | value@U32.0 <- value is U32 | value@U64.0 <- value is U64 | value@U8.0 <- value is U8}
@ <i8 as core::convert::TryFrom<vortex_scalar::value::ScalarValue>>::try_from args=value
TryFrom.try_from(value)
@ <i8 as vortex_scalar::scalar_type::ScalarType>::dtype
Primitive(I8, NonNullable)
@ <u16 as core::convert::TryFrom<&vortex_scalar::Scalar>>::try_from args=value
as_primitive(TryFrom.try_from(value).pvalue)
@ <u16 as core::convert::TryFrom<&vortex_scalar::value::ScalarValue>>::try_from args=value
TryFrom.try_from(value@Primitive.0)
@ <u16 as core::convert::TryFrom<vortex_scalar::Scalar>>::try_from args=value
TryFrom.try_from(value)
@ <u16 as core::convert::TryFrom<vortex_scalar::pvalue::PValue>>::try_from args=value
{None <- value is F16|F32|F64 | value@I16.0 <- value is I16 | value@I32.0 <- value is I32 | value@I64.0 <- value is I64 | value@I8.0 <- value is I8 | value@U16.0 <- value is U16 | value@U32.0 <- value is U32 | value@U64.0 <- value is U64 | value@U8.0 <- value is U8}
@ <u16 as core::convert::TryFrom<vortex_scalar::value::ScalarValue>>::try_from args=value
TryFrom.try_from(value)
@ <u16 as vortex_scalar::scalar_type::ScalarType>::dtype
Primitive(U16, NonNullable)
@ <u32 as core::convert::TryFrom<&vortex_scalar::Scalar>>::try_from args=value
as_primitive(TryFrom.try_from(value).pvalue)
@ <u32 as core::convert::TryFrom<&vortex_scalar::value::ScalarValue>>::try_from args=value
TryFrom.try_from(value@Primitive.0)
@ <u32 as core::convert::TryFrom<vortex_scalar::Scalar>>::try_from args=value
TryFrom.try_from(value)
@ <u32 as core::convert::TryFrom<vortex_scalar::pvalue::PValue>>::try_from args=value
{None <- value is F16|F32|F64 | value@I16.0 <- value is I16 | value@I32.0 <- value is I32 | value@I64.0 <- value is I64 | value@I8.0 <- value is I8 | value@U16.0 <- value is U16 | value@U32.0 <- value is U32 | value@U64.0 <- value is U64 | value@U8.0 <- value is U8}
@ <u32 as core::convert::TryFrom<vortex_scalar::value::ScalarValue>>::try_from args=value
TryFrom.try_from(value)
@ <u32 as vortex_scalar::scalar_type::ScalarType>::dtype
Primitive(U32, NonNullable)
@ <u64 as core::convert::TryFrom<&vortex_scalar::Scalar>>::try_from args=value
as_primitive(TryFrom.try_from(value).pvalue)
@ <u64 as core::convert::TryFrom<&vortex_scalar::value::ScalarValue>>::try_from args=value
TryFrom.try_from(value@Primitive.0)
@ <u64 as core::convert::TryFrom<vortex_scalar::Scalar>>::try_from args=value
TryFrom.try_from(value)
@ <u64 as core::convert::TryFrom<vortex_scalar::pvalue::PValue>>::try_from args=value
{None <- value is F16|F32|F64 | value@I16.0 <- value is I16 | value@I32.0 <- value is I32 | value@I64.0 <- value is I64 | value@I8.0 <- value is I8 | value@U16.0 <- value is U16 | value@U32.0 <- value is U32 | value@U64.0 <- value is U64 | value@U8.0 <- value is U8}
@ <u64 as core::convert::TryFrom<vortex_scalar::value::ScalarValue>>::try_from args=value
TryFrom.try_from(value)
@ <u64 as vortex_scalar::scalar_type::ScalarType>::dtype
Primitive(U64, NonNullable)
@ <u8 as core::convert::TryFrom<&vortex_scalar::Scalar>>::try_from args=value
as_primitive(TryFrom.try_from(value).pvalue)
@ <u8 as core::convert::TryFrom<&vortex_scalar::value::ScalarValue>>::try_from args=value
TryFrom.try_from(value@Primitive.0)
@ <u8 as core::convert::TryFrom<vortex_scalar::Scalar>>::try_from args=value
TryFrom.try_from(value)
@ <u8 as core::convert::TryFrom<vortex_scalar::pvalue::PValue>>::try_from args=value
{None <- value is F16|F32|F64 | value@I16.0 <- value is I16 | value@I32.0 <- value is I32 | value@I64.0 <- value is I64 | value@I8.0 <- value is I8 | value@U16.0 <- value is U16 | value@U32.0 <- value is U32 | value@U64.0 <- value is U64 | value@U8.0 <- value is U8}
@ <u8 as core::convert::TryFrom<vortex_scalar::value::ScalarValue>>::try_from args=value
TryFrom.try_from(value)
@ <u8 as vortex_scalar::scalar_type::ScalarType>::dtype
Primitive(U8, NonNullable)
@ <usize as core::convert::TryFrom<&vortex_scalar::Scalar>>::try_from args=value
TryFrom.try_from(value.value)
@ <usize as core::convert::TryFrom<&vortex_scalar::value::ScalarValue>>::try_from args=value
TryFrom.try_from(value)
@ <usize as core::convert::TryFrom<vortex_scalar::pvalue::PValue>>::try_from args=value
{None <- value is F16|F32|F64 | value@I16.0 <- value is I16 | value@I32.0 <- value is I32 | value@I64.0 <- value is I64 | value@I8.0 <- value is I8 | value@U16.0 <- value is U16 | value@U32.0 <- value is U32 | value@U64.0 <- value is U64 | value@U8.0 <- value is U8}
@ <usize as vortex_scalar::scalar_type::ScalarType>::dtype
Primitive(U64, NonNullable)
@ <vortex_buffer::Buffer as core::convert::TryFrom<&vortex_scalar::Scalar>>::try_from args=value
TryFrom.try_from(value).value
@ <vortex_buffer::Buffer as vortex_scalar::scalar_type::ScalarType>::dtype
Binary(NonNullable)
@ <vortex_buffer::string::BufferString as core::convert::TryFrom<&vortex_scalar::Scalar>>::try_from args=value
TryFrom.try_from(value).value
@ <vortex_buffer::string::BufferString as vortex_scalar::scalar_type::ScalarType>::dtype
Utf8(NonNullable)
@ <vortex_scalar::Scalar as core::cmp::PartialEq<vortex_scalar::Scalar>>::eq args=self,other voc=read_value
and(Eq(dtype(other), dtype(self)), Eq(read_value(other), read_value(self)))
@ <vortex_scalar::Scalar as core::cmp::PartialOrd<vortex_scalar::Scalar>>::partial_cmp args=self,other voc=read_value
None <- !eq_ignore_nullability(dtype(self), dtype(other))
partial_cmp(read_value(self), read_value(other)) <- eq_ignore_nullability(dtype(self), dtype(other))
@ <vortex_scalar::Scalar as core::convert::AsRef<vortex_scalar::Scalar>>::as_ref args=self
self
@ <vortex_scalar::Scalar as core::convert::From<&str>>::from args=value
Scalar(Utf8(NonNullable), BufferString(BufferString(Arrow(Buffer.from_vec(value)))))
@ <vortex_scalar::Scalar as core::convert::From<T>>::from args=value
Scalar(dtype(), value)
@ <vortex_scalar::Scalar as core::convert::From<bool>>::from args=value
Scalar(Bool(NonNullable), Bool(value))
@ <vortex_scalar::Scalar as core::convert::From<core::option::Option<T>>>::from args=value
Scalar({Binary(Nullable) <- dtype() is Binary | Bool(Nullable) <- dtype() is Bool | Extension(dtype()@Extension.0, Nullable) <- dtype() is Extension | List(dtype()@List.0, Nullable) <- dtype() is List | Primitive(dtype()@Primitive.0, Nullable) <- dtype() is Primitive | Struct(dtype()@Struct.0, Nullable) <- dtype() is Struct | Utf8(Nullable) <- dtype() is Utf8 | dtype() <- dtype() is Null}, value)
@ <vortex_scalar::Scalar>::binary args=buffer,nullability
Scalar(Binary(nullability), Buffer(buffer))
@ <vortex_scalar::Scalar>::bool args=value,nullability
Scalar(Bool(nullability), Bool(value))
@ <vortex_scalar::Scalar>::cast args=self,dtype
Scalar(dtype, self.value) <- eq_ignore_nullability(dtype(self), dtype)
cast(TryFrom.try_from(self), dtype) <- !eq_ignore_nullability(dtype(self), dtype)
@ <vortex_scalar::Scalar>::dtype args=self
dtype(self)
@ <vortex_scalar::Scalar>::extension args=ext_dtype,storage
Scalar(Extension(ext_dtype, nullability(dtype(storage))), storage.value)
@ <vortex_scalar::Scalar>::into_parts args=self
(self.value, dtype(self))
@ <vortex_scalar::Scalar>::into_value args=self
self.value
@ <vortex_scalar::Scalar>::is_null args=self
is_null(self.value)
@ <vortex_scalar::Scalar>::is_valid args=self inl=is_null
!is_null(self.value)
@ <vortex_scalar::Scalar>::list args=element_dtype,children
Scalar(List(element_dtype, NonNullable), List(children))
@ <vortex_scalar::Scalar>::new args=dtype,value
Scalar(dtype, value)
@ <vortex_scalar::Scalar>::null args=dtype
Scalar(dtype, Null)
@ <vortex_scalar::Scalar>::primitive args=value,nullability
Scalar(Primitive(PTYPE, nullability), Primitive(value))
@ <vortex_scalar::Scalar>::reinterpret_cast args=self,ptype
Scalar(Primitive(ptype, nullability(dtype(self))), or(Primitive({F16(transmute(TryFrom.try_from(self).pvalue@I16.0)) <- !Eq(ptype, ptype(TryFrom.try_from(self).pvalue)) & TryFrom.try_from(self).pvalue is I16 & ptype is F16 | F16(transmute(TryFrom.try_from(self).pvalue@U16.0)) <- !Eq(ptype, ptype(TryFrom.try_from(self).pvalue)) & TryFrom.try_from(self).pvalue is U16 & ptype is F16 | F32(transmute(TryFrom.try_from(self).pvalue@I32.0)) <- !Eq(ptype, ptype(TryFrom.try_from(self).pvalue)) & TryFrom.try_from(self).pvalue is I32 & ptype is F32 | F32(transmute(TryFrom.try_from(self).pvalue@U32.0)) <- !Eq(ptype, ptype(TryFrom.try_from(self).pvalue)) & TryFrom.try_from(self).pvalue is U32 & ptype is F32 | F64(transmute(TryFrom.try_from(self).pvalue@I64.0)) <- !Eq(ptype, ptype(TryFrom.try_from(self).pvalue)) & TryFrom.try_from(self).pvalue is I64 & ptype is F64 | F64(transmute(TryFrom.try_from(self).pvalue@U64.0)) <- !Eq(ptype, ptype(TryFrom.try_from(self).pvalue)) & TryFrom.try_from(self).pvalue is U64 & ptype is F64 | I16(transmute(TryFrom.try_from(self).pvalue@F16.0)) <- !Eq(ptype, ptype(TryFrom.try_from(self).pvalue)) & TryFrom.try_from(self).pvalue is F16 & ptype is I16 | I16(transmute(TryFrom.try_from(self).pvalue@U16.0)) <- !Eq(ptype, ptype(TryFrom.try_from(self).pvalue)) & TryFrom.try_from(self).pvalue is U16 & ptype is I16 | I32(transmute(TryFrom.try_from(self).pvalue@F32.0)) <- !Eq(ptype, ptype(TryFrom.try_from(self).pvalue)) & TryFrom.try_from(self).pvalue is F32 & ptype is I32 | I32(transmute(TryFrom.try_from(self).pvalue@U32.0)) <- !Eq(ptype, ptype(TryFrom.try_from(self).pvalue)) & TryFrom.try_from(self).pvalue is U32 & ptype is I32 | I64(transmute(TryFrom.try_from(self).pvalue@F64.0)) <- !Eq(ptype, ptype(TryFrom.try_from(self).pvalue)) & TryFrom.try_from(self).pvalue is F64 & ptype is I64 | I64(transmute(TryFrom.try_from(self).pvalue@U64.0)) <- !Eq(ptype, ptype(TryFrom.try_from(self).pvalue)) & TryFrom.try_from(self).pvalue is U64 & ptype is I64 | I8(transmute(TryFrom.try_from(self).pvalue@U8.0)) <- !Eq(ptype, ptype(TryFrom.try_from(self).pvalue)) & TryFrom.try_from(self).pvalue is U8 | TryFrom.try_from(self).pvalue <- Eq(ptype, ptype(TryFrom.try_from(self).pvalue)) | U16(transmute(TryFrom.try_from(self).pvalue@F16.0)) <- !Eq(ptype, ptype(TryFrom.try_from(self).pvalue)) & TryFrom.try_from(self).pvalue is F16 & ptype is U16 | U16(transmute(TryFrom.try_from(self).pvalue@I16.0)) <- !Eq(ptype, ptype(TryFrom.try_from(self).pvalue)) & TryFrom.try_from(self).pvalue is I16 & ptype is U16 | U32(transmute(TryFrom.try_from(self).pvalue@F32.0)) <- !Eq(ptype, ptype(TryFrom.try_from(self).pvalue)) & TryFrom.try_from(self).pvalue is F32 & ptype is U32 | U32(transmute(TryFrom.try_from(self).pvalue@I32.0)) <- !Eq(ptype, ptype(TryFrom.try_from(self).pvalue)) & TryFrom.try_from(self).pvalue is I32 & ptype is U32 | U64(transmute(TryFrom.try_from(self).pvalue@F64.0)) <- !Eq(ptype, ptype(TryFrom.try_from(self).pvalue)) & TryFrom.try_from(self).pvalue is F64 & ptype is U64 | U64(transmute(TryFrom.try_from(self).pvalue@I64.0)) <- !Eq(ptype, ptype(TryFrom.try_from(self).pvalue)) & TryFrom.try_from(self).pvalue is I64 & ptype is U64 | U8(transmute(TryFrom.try_from(self).pvalue@I8.0)) <- !Eq(ptype, ptype(TryFrom.try_from(self).pvalue)) & TryFrom.try_from(self).pvalue is I8}), Null)) <- !Eq(ptype, ptype(TryFrom.try_from(self)))
self <- Eq(ptype, ptype(TryFrom.try_from(self)))
@ <vortex_scalar::Scalar>::struct args=dtype,children
Scalar(dtype, List(children))
@ <vortex_scalar::Scalar>::try_utf8 args=str,nullability
Scalar(Utf8(nullability), BufferString(try_into(str)))
@ <vortex_scalar::Scalar>::utf8 args=str,nullability
Scalar(Utf8(nullability), BufferString(try_into(str)))
@ <vortex_scalar::Scalar>::value args=self
self.value
@ <vortex_scalar::Scalar>::zero args=nullability
Scalar(Primitive(PTYPE, nullability), Primitive(zero()))
@ <vortex_scalar::binary::BinaryScalar as core::convert::TryFrom<&vortex_scalar::Scalar>>::try_from args=value
BinaryScalar(dtype(value), optfilter(value.value@Buffer.0, value.value is Buffer))
@ <vortex_scalar::binary::BinaryScalar>::cast args=self,dtype
never
@ <vortex_scalar::binary::BinaryScalar>::dtype args=self
dtype(self)
@ <vortex_scalar::binary::BinaryScalar>::value args=self
self.value
@ <vortex_scalar::bool::BoolScalar as core::convert::TryFrom<&vortex_scalar::Scalar>>::try_from args=value
BoolScalar(dtype(value), as_bool(value.value))
@ <vortex_scalar::bool::BoolScalar>::cast args=self,dtype
Scalar(Bool(nullability(dtype)), Bool(self.value))
@ <vortex_scalar::bool::BoolScalar>::dtype args=self
dtype(self)
@ <vortex_scalar::bool::BoolScalar>::value args=self
self.value
@ <vortex_scalar::extension::ExtScalar as core::convert::TryFrom<&vortex_scalar::Scalar>>::try_from args=value
ExtScalar(dtype(value), value.value)
@ <vortex_scalar::extension::ExtScalar>::cast args=self,dtype
never
@ <vortex_scalar::extension::ExtScalar>::dtype args=self
dtype(self)
@ <vortex_scalar::extension::ExtScalar>::try_new args=dtype,value
ExtScalar(dtype, value)
@ <vortex_scalar::extension::ExtScalar>::value args=self
self.value
@ <vortex_scalar::list::ListScalar as core::convert::TryFrom<&vortex_scalar::Scalar>>::try_from args=value
ListScalar(dtype(value), optfilter(value.value@List.0, value.value is List))
@ <vortex_scalar::list::ListScalar>::cast args=self,dtype
never
@ <vortex_scalar::list::ListScalar>::dtype args=self
dtype(self)
@ <vortex_scalar::list::ListScalar>::element args=self,idx
optfilter(Scalar(dtype(self)@List.0, index(self.elements, idx)), Lt(idx, len(self.elements)))
@ <vortex_scalar::list::ListScalar>::element_dtype args=self
dtype(self)@List.0
@ <vortex_scalar::list::ListScalar>::elements args=self
each(Scalar(dtype(self)@List.0, elem(or(self.elements, []))))
@ <vortex_scalar::list::ListScalar>::is_empty args=self
!and(!Eq(0, len(self.elements)), !self.elements is None)
@ <vortex_scalar::list::ListScalar>::len args=self
or(len(self.elements), 0)
@ <vortex_scalar::primitive::PrimitiveScalar as core::convert::TryFrom<&vortex_scalar::Scalar>>::try_from args=value
PrimitiveScalar(dtype(value), TryFrom.try_from(dtype(value)), {F16(TryFrom.try_from(as_pvalue(value.value))) <- TryFrom.try_from(dtype(value)) is F16 | F32(TryFrom.try_from(as_pvalue(value.value))) <- TryFrom.try_from(dtype(value)) is F32 | F64(TryFrom.try_from(as_pvalue(value.value))) <- TryFrom.try_from(dtype(value)) is F64 | I16(TryFrom.try_from(as_pvalue(value.value))) <- TryFrom.try_from(dtype(value)) is I16 | I32(TryFrom.try_from(as_pvalue(value.value))) <- TryFrom.try_from(dtype(value)) is I32 | I64(TryFrom.try_from(as_pvalue(value.value))) <- TryFrom.try_from(dtype(value)) is I64 | I8(TryFrom.try_from(as_pvalue(value.value))) <- TryFrom.try_from(dtype(value)) is I8 | U16(TryFrom.try_from(as_pvalue(value.value))) <- TryFrom.try_from(dtype(value)) is U16 | U32(TryFrom.try_from(as_pvalue(value.value))) <- TryFrom.try_from(dtype(value)) is U32 | U64(TryFrom.try_from(as_pvalue(value.value))) <- TryFrom.try_from(dtype(value)) is U64 | U8(TryFrom.try_from(as_pvalue(value.value))) <- TryFrom.try_from(dtype(value)) is U8})
@ <vortex_scalar::primitive::PrimitiveScalar>::cast args=self,dtype
Scalar(Primitive(F16, nullability(dtype)), Primitive(F16(as_primitive(self.pvalue)))) <- TryFrom.try_from(dtype) is F16 & self.pvalue is Some
Scalar(Primitive(F32, nullability(dtype)), Primitive(F32(as_primitive(self.pvalue)))) <- TryFrom.try_from(dtype) is F32 & self.pvalue is Some
Scalar(Primitive(F64, nullability(dtype)), Primitive(F64(as_primitive(self.pvalue)))) <- TryFrom.try_from(dtype) is F64 & self.pvalue is Some
Scalar(Primitive(I16, nullability(dtype)), Primitive(I16(as_primitive(self.pvalue)))) <- TryFrom.try_from(dtype) is I16 & self.pvalue is Some
Scalar(Primitive(I32, nullability(dtype)), Primitive(I32(as_primitive(self.pvalue)))) <- TryFrom.try_from(dtype) is I32 & self.pvalue is Some
Scalar(Primitive(I64, nullability(dtype)), Primitive(I64(as_primitive(self.pvalue)))) <- TryFrom.try_from(dtype) is I64 & self.pvalue is Some
Scalar(Primitive(I8, nullability(dtype)), Primitive(I8(as_primitive(self.pvalue)))) <- TryFrom.try_from(dtype) is I8 & self.pvalue is Some
Scalar(Primitive(U16, nullability(dtype)), Primitive(U16(as_primitive(self.pvalue)))) <- TryFrom.try_from(dtype) is U16 & self.pvalue is Some
Scalar(Primitive(U32, nullability(dtype)), Primitive(U32(as_primitive(self.pvalue)))) <- TryFrom.try_from(dtype) is U32 & self.pvalue is Some
Scalar(Primitive(U64, nullability(dtype)), Primitive(U64(as_primitive(self.pvalue)))) <- TryFrom.try_from(dtype) is U64 & self.pvalue is Some
Scalar(Primitive(U8, nullability(dtype)), Primitive(U8(as_primitive(self.pvalue)))) <- TryFrom.try_from(dtype) is U8 & self.pvalue is Some
Scalar(dtype, Null) <- self.pvalue is None
@ <vortex_scalar::primitive::PrimitiveScalar>::dtype args=self
dtype(self)
@ <vortex_scalar::primitive::PrimitiveScalar>::ptype args=self
self.ptype
@ <vortex_scalar::primitive::PrimitiveScalar>::scalar_value args=self
or(Primitive(self.pvalue), Null)
@ <vortex_scalar::primitive::PrimitiveScalar>::try_new args=dtype,value
PrimitiveScalar(dtype, TryFrom.try_from(dtype), {F16(TryFrom.try_from(as_pvalue(value))) <- TryFrom.try_from(dtype) is F16 | F32(TryFrom.try_from(as_pvalue(value))) <- TryFrom.try_from(dtype) is F32 | F64(TryFrom.try_from(as_pvalue(value))) <- TryFrom.try_from(dtype) is F64 | I16(TryFrom.try_from(as_pvalue(value))) <- TryFrom.try_from(dtype) is I16 | I32(TryFrom.try_from(as_pvalue(value))) <- TryFrom.try_from(dtype) is I32 | I64(TryFrom.try_from(as_pvalue(value))) <- TryFrom.try_from(dtype) is I64 | I8(TryFrom.try_from(as_pvalue(value))) <- TryFrom.try_from(dtype) is I8 | U16(TryFrom.try_from(as_pvalue(value))) <- TryFrom.try_from(dtype) is U16 | U32(TryFrom.try_from(as_pvalue(value))) <- TryFrom.try_from(dtype) is U32 | U64(TryFrom.try_from(as_pvalue(value))) <- TryFrom.try_from(dtype) is U64 | U8(TryFrom.try_from(as_pvalue(value))) <- TryFrom.try_from(dtype) is U8})
@ <vortex_scalar::primitive::PrimitiveScalar>::typed_value args=self
as_primitive(self.pvalue)
@ <vortex_scalar::pvalue::PValue as core::cmp::PartialEq<vortex_scalar::pvalue::PValue>>::eq args=self,other
Eq(other@F16.0, self@F16.0) <- other is F16 & self is F16
Eq(other@F32.0, self@F32.0) <- other is F32 & self is F32
Eq(other@F64.0, self@F64.0) <- other is F64 & self is F64
Eq({I64(other@I16.0) <- other is I16 | I64(other@I32.0) <- other is I32 | I64(other@I8.0) <- other is I8 | U64(other@U16.0) <- other is U16 | U64(other@U32.0) <- other is U32 | U64(other@U8.0) <- other is U8 | other <- other is F16|F32|F64|I64|U64}@I64.0, {I64(self@I16.0) <- self is I16 | I64(self@I32.0) <- self is I32 | I64(self@I8.0) <- self is I8 | U64(self@U16.0) <- self is U16 | U64(self@U32.0) <- self is U32 | U64(self@U8.0) <- self is U8 | self <- self is F16|F32|F64|I64|U64}@I64.0) <- other is I16|I32|I64|I8 & self is I16|I32|I64|I8
Eq({I64(other@I16.0) <- other is I16 | I64(other@I32.0) <- other is I32 | I64(other@I8.0) <- other is I8 | U64(other@U16.0) <- other is U16 | U64(other@U32.0) <- other is U32 | U64(other@U8.0) <- other is U8 | other <- other is F16|F32|F64|I64|U64}@U64.0, {I64(self@I16.0) <- self is I16 | I64(self@I32.0) <- self is I32 | I64(self@I8.0) <- self is I8 | U64(self@U16.0) <- self is U16 | U64(self@U32.0) <- self is U32 | U64(self@U8.0) <- self is U8 | self <- self is F16|F32|F64|I64|U64}@U64.0) <- other is U16|U32|U64|U8 & self is U16|U32|U64|U8
False
@ <vortex_scalar::pvalue::PValue as core::cmp::PartialOrd<vortex_scalar::pvalue::PValue>>::partial_cmp args=self,other
None
compare(self@F16.0, other@F16.0) <- other is F16 & self is F16
compare(self@F32.0, other@F32.0) <- other is F32 & self is F32
compare(self@F64.0, other@F64.0) <- other is F64 & self is F64
compare({I64(self@I16.0) <- self is I16 | I64(self@I32.0) <- self is I32 | I64(self@I8.0) <- self is I8 | U64(self@U16.0) <- self is U16 | U64(self@U32.0) <- self is U32 | U64(self@U8.0) <- self is U8 | self <- self is F16|F32|F64|I64|U64}@I64.0, {I64(other@I16.0) <- other is I16 | I64(other@I32.0) <- other is I32 | I64(other@I8.0) <- other is I8 | U64(other@U16.0) <- other is U16 | U64(other@U32.0) <- other is U32 | U64(other@U8.0) <- other is U8 | other <- other is F16|F32|F64|I64|U64}@I64.0) <- other is I16|I32|I64|I8 & self is I16|I32|I64|I8
compare({I64(self@I16.0) <- self is I16 | I64(self@I32.0) <- self is I32 | I64(self@I8.0) <- self is I8 | U64(self@U16.0) <- self is U16 | U64(self@U32.0) <- self is U32 | U64(self@U8.0) <- self is U8 | self <- self is F16|F32|F64|I64|U64}@U64.0, {I64(other@I16.0) <- other is I16 | I64(other@I32.0) <- other is I32 | I64(other@I8.0) <- other is I8 | U64(other@U16.0) <- other is U16 | U64(other@U32.0) <- other is U32 | U64(other@U8.0) <- other is U8 | other <- other is F16|F32|F64|I64|U64}@U64.0) <- other is U16|U32|U64|U8 & self is U16|U32|U64|U8
@ <vortex_scalar::pvalue::PValue as core::convert::From<f32>>::from args=value
F32(value)
@ <vortex_scalar::pvalue::PValue as core::convert::From<f64>>::from args=value
F64(value)
@ <vortex_scalar::pvalue::PValue as core::convert::From<half::binary16::f16>>::from args=value
F16(value)
@ <vortex_scalar::pvalue::PValue as core::convert::From<i16>>::from args=value
I16(value)
@ <vortex_scalar::pvalue::PValue as core::convert::From<i32>>::from args=value
I32(value)
@ <vortex_scalar::pvalue::PValue as core::convert::From<i64>>::from args=value
I64(value)
@ <vortex_scalar::pvalue::PValue as core::convert::From<i8>>::from args=value
I8(value)
@ <vortex_scalar::pvalue::PValue as core::convert::From<u16>>::from args=value
U16(value)
@ <vortex_scalar::pvalue::PValue as core::convert::From<u32>>::from args=value
U32(value)
@ <vortex_scalar::pvalue::PValue as core::convert::From<u64>>::from args=value
U64(value)
@ <vortex_scalar::pvalue::PValue as core::convert::From<u8>>::from args=value
U8(value)
@ <vortex_scalar::pvalue::PValue as core::convert::From<usize>>::from args=value
U64(value)
@ <vortex_scalar::pvalue::PValue>::as_f16 args=self
None <- self is F32|F64|I16|I32|I64|I8|U16|U32|U64|U8
self@F16.0 <- self is F16
@ <vortex_scalar::pvalue::PValue>::as_f32 args=self
None <- self is F16|F64|I16|I32|I64|I8|U16|U32|U64|U8
self@F32.0 <- self is F32
@ <vortex_scalar::pvalue::PValue>::as_f64 args=self
None <- self is F16|F32|I16|I32|I64|I8|U16|U32|U64|U8
self@F64.0 <- self is F64
@ <vortex_scalar::pvalue::PValue>::as_i16 args=self
None <- self is F16|F32|F64|I32|I64|I8|U16|U32|U64|U8
self@I16.0 <- self is I16
@ <vortex_scalar::pvalue::PValue>::as_i32 args=self
None <- self is F16|F32|F64|I16|I64|I8|U16|U32|U64|U8
self@I32.0 <- self is I32
@ <vortex_scalar::pvalue::PValue>::as_i64 args=self
None <- self is F16|F32|F64|I16|I32|I8|U16|U32|U64|U8
self@I64.0 <- self is I64
@ <vortex_scalar::pvalue::PValue>::as_i8 args=self
None <- self is F16|F32|F64|I16|I32|I64|U16|U32|U64|U8
self@I8.0 <- self is I8
@ <vortex_scalar::pvalue::PValue>::as_primitive args=self
try_from(self)
@ <vortex_scalar::pvalue::PValue>::as_u16 args=self
None <- self is F16|F32|F64|I16|I32|I64|I8|U32|U64|U8
self@U16.0 <- self is U16
@ <vortex_scalar::pvalue::PValue>::as_u32 args=self
None <- self is F16|F32|F64|I16|I32|I64|I8|U16|U64|U8
self@U32.0 <- self is U32
@ <vortex_scalar::pvalue::PValue>::as_u64 args=self
None <- self is F16|F32|F64|I16|I32|I64|I8|U16|U32|U8
self@U64.0 <- self is U64
@ <vortex_scalar::pvalue::PValue>::as_u8 args=self
None <- self is F16|F32|F64|I16|I32|I64|I8|U16|U32|U64
self@U8.0 <- self is U8
@ <vortex_scalar::pvalue::PValue>::is_instance_of args=self,ptype
Eq(ptype, ptype(self))
@ <vortex_scalar::pvalue::PValue>::ptype args=self
self <- self is F16|F32|F64|I16|I32|I64|I8|U16|U32|U64|U8
@ <vortex_scalar::pvalue::PValue>::reinterpret_cast args=self,ptype
F16(transmute(self@I16.0)) <- !Eq(ptype, ptype(self)) & ptype is F16 & self is I16
F16(transmute(self@U16.0)) <- !Eq(ptype, ptype(self)) & ptype is F16 & self is U16
F32(transmute(self@I32.0)) <- !Eq(ptype, ptype(self)) & ptype is F32 & self is I32
F32(transmute(self@U32.0)) <- !Eq(ptype, ptype(self)) & ptype is F32 & self is U32
F64(transmute(self@I64.0)) <- !Eq(ptype, ptype(self)) & ptype is F64 & self is I64
F64(transmute(self@U64.0)) <- !Eq(ptype, ptype(self)) & ptype is F64 & self is U64
I16(transmute(self@F16.0)) <- !Eq(ptype, ptype(self)) & ptype is I16 & self is F16
I16(transmute(self@U16.0)) <- !Eq(ptype, ptype(self)) & ptype is I16 & self is U16
I32(transmute(self@F32.0)) <- !Eq(ptype, ptype(self)) & ptype is I32 & self is F32
I32(transmute(self@U32.0)) <- !Eq(ptype, ptype(self)) & ptype is I32 & self is U32
I64(transmute(self@F64.0)) <- !Eq(ptype, ptype(self)) & ptype is I64 & self is F64
I64(transmute(self@U64.0)) <- !Eq(ptype, ptype(self)) & ptype is I64 & self is U64
I8(transmute(self@U8.0)) <- !Eq(ptype, ptype(self)) & self is U8
U16(transmute(self@F16.0)) <- !Eq(ptype, ptype(self)) & ptype is U16 & self is F16
U16(transmute(self@I16.0)) <- !Eq(ptype, ptype(self)) & ptype is U16 & self is I16
U32(transmute(self@F32.0)) <- !Eq(ptype, ptype(self)) & ptype is U32 & self is F32
U32(transmute(self@I32.0)) <- !Eq(ptype, ptype(self)) & ptype is U32 & self is I32
U64(transmute(self@F64.0)) <- !Eq(ptype, ptype(self)) & ptype is U64 & self is F64
U64(transmute(self@I64.0)) <- !Eq(ptype, ptype(self)) & ptype is U64 & self is I64
U8(transmute(self@I8.0)) <- !Eq(ptype, ptype(self)) & self is I8
self <- Eq(ptype, ptype(self))
@ <vortex_scalar::pvalue::PValue>::widen args=self
I64(self@I16.0) <- self is I16
I64(self@I32.0) <- self is I32
I64(self@I8.0) <- self is I8
U64(self@U16.0) <- self is U16
U64(self@U32.0) <- self is U32
U64(self@U8.0) <- self is U8
self <- self is F16|F32|F64|I64|U64
@ <vortex_scalar::struct_::StructScalar as core::convert::TryFrom<&vortex_scalar::Scalar>>::try_from args=value
StructScalar(dtype(value), optfilter(value.value@List.0, value.value is List))
@ <vortex_scalar::struct_::StructScalar>::cast args=self,dtype errs=1
or(Scalar(dtype, List(each(cast(Scalar(index(dtype(self)@Struct.0.dtypes, pos(self.fields)), elem(self.fields)), index(dtype@Struct.0.dtypes, pos(self.fields))).value))), Scalar(dtype, Null)) <- Eq(len(dtype(self)@Struct.0.dtypes), len(dtype@Struct.0.dtypes)) & dtype is Struct
@ <vortex_scalar::struct_::StructScalar>::dtype args=self
dtype(self)
@ <vortex_scalar::struct_::StructScalar>::field args=self,name
optfilter(Scalar(index(dtype(self)@Struct.0.dtypes, iposition(dtype(self)@Struct.0.names, Eq(elem(dtype(self)@Struct.0.names), name))), index(self.fields, iposition(dtype(self)@Struct.0.names, Eq(elem(dtype(self)@Struct.0.names), name)))), Lt(iposition(dtype(self)@Struct.0.names, Eq(elem(dtype(self)@Struct.0.names), name)), len(self.fields)))
@ <vortex_scalar::struct_::StructScalar>::field_by_idx args=self,idx
optfilter(Scalar(index(dtype(self)@Struct.0.dtypes, idx), index(self.fields, idx)), Lt(idx, len(self.fields)))
@ <vortex_scalar::struct_::StructScalar>::fields args=self
self.fields
@ <vortex_scalar::struct_::StructScalar>::is_null args=self
isNone(self.fields)
@ <vortex_scalar::struct_::StructScalar>::project args=self,projection
Scalar(Struct(StructDType(each(index(dtype(self)@Struct.0.names, {elem(projection)@Index.0 <- elem(projection) is Index | iposition(dtype(self)@Struct.0.names, Eq(elem(dtype(self)@Struct.0.names), elem(projection)@Name.0)) <- elem(projection) is Name})), each(index(dtype(self)@Struct.0.dtypes, {elem(projection)@Index.0 <- elem(projection) is Index | iposition(dtype(self)@Struct.0.names, Eq(elem(dtype(self)@Struct.0.names), elem(projection)@Name.0)) <- elem(projection) is Name}))), nullability(dtype(self))), or(List(each(index(self.fields, {elem(projection)@Index.0 <- elem(projection) is Index | iposition(dtype(self)@Struct.0.names, Eq(elem(dtype(self)@Struct.0.names), elem(projection)@Name.0)) <- elem(projection) is Name}))), Null))
@ <vortex_scalar::struct_::StructScalar>::try_new args=dtype,value
StructScalar(dtype, optfilter(value@List.0, value is List))
@ <vortex_scalar::utf8::Utf8Scalar as core::convert::TryFrom<&vortex_scalar::Scalar>>::try_from args=value
Utf8Scalar(dtype(value), {None <- value.value is Null | TryFrom.try_from(value.value@Buffer.0) <- value.value is Buffer | value.value@BufferString.0 <- value.value is BufferString})
@ <vortex_scalar::utf8::Utf8Scalar>::cast args=self,dtype
never
@ <vortex_scalar::utf8::Utf8Scalar>::dtype args=self
dtype(self)
@ <vortex_scalar::utf8::Utf8Scalar>::value args=self
self.value
@ <vortex_scalar::value::ScalarValue as core::convert::From<alloc::string::String>>::from args=value
BufferString(BufferString(Arrow(Buffer.from_vec(value))))
@ <vortex_scalar::value::ScalarValue as core::convert::From<alloc::vec::Vec<alloc::string::String, alloc::alloc::Global>>>::from args=value
List(each(BufferString(BufferString(Arrow(Buffer.from_vec(elem(value)))))))
@ <vortex_scalar::value::ScalarValue as core::convert::From<alloc::vec::Vec<bytes::bytes::Bytes, alloc::alloc::Global>>>::from args=value
List(each(Buffer(Bytes(elem(value)))))
@ <vortex_scalar::value::ScalarValue as core::convert::From<alloc::vec::Vec<f32, alloc::alloc::Global>>>::from args=value
List(each(Primitive(F32(elem(value)))))
@ <vortex_scalar::value::ScalarValue as core::convert::From<alloc::vec::Vec<f64, alloc::alloc::Global>>>::from args=value
List(each(Primitive(F64(elem(value)))))
@ <vortex_scalar::value::ScalarValue as core::convert::From<alloc::vec::Vec<half::binary16::f16, alloc::alloc::Global>>>::from args=value
List(each(Primitive(F16(elem(value)))))
@ <vortex_scalar::value::ScalarValue as core::convert::From<alloc::vec::Vec<i16, alloc::alloc::Global>>>::from args=value
List(each(Primitive(I16(elem(value)))))
@ <vortex_scalar::value::ScalarValue as core::convert::From<alloc::vec::Vec<i32, alloc::alloc::Global>>>::from args=value
List(each(Primitive(I32(elem(value)))))
@ <vortex_scalar::value::ScalarValue as core::convert::From<alloc::vec::Vec<i64, alloc::alloc::Global>>>::from args=value
List(each(Primitive(I64(elem(value)))))
@ <vortex_scalar::value::ScalarValue as core::convert::From<alloc::vec::Vec<i8, alloc::alloc::Global>>>::from args=value
List(each(Primitive(I8(elem(value)))))
@ <vortex_scalar::value::ScalarValue as core::convert::From<alloc::vec::Vec<u16, alloc::alloc::Global>>>::from args=value
List(each(Primitive(U16(elem(value)))))
@ <vortex_scalar::value::ScalarValue as core::convert::From<alloc::vec::Vec<u32, alloc::alloc::Global>>>::from args=value
List(each(Primitive(U32(elem(value)))))
@ <vortex_scalar::value::ScalarValue as core::convert::From<alloc::vec::Vec<u64, alloc::alloc::Global>>>::from args=value
List(each(Primitive(U64(elem(value)))))
@ <vortex_scalar::value::ScalarValue as core::convert::From<alloc::vec::Vec<usize, alloc::alloc::Global>>>::from args=value
List(each(Primitive(U64(elem(value)))))
@ <vortex_scalar::value::ScalarValue as core::convert::From<alloc::vec::Vec<vortex_buffer::Buffer, alloc::alloc::Global>>>::from args=value
List(each(Buffer(elem(value))))
@ <vortex_scalar::value::ScalarValue as core::convert::From<alloc::vec::Vec<vortex_buffer::string::BufferString, alloc::alloc::Global>>>::from args=value
List(each(BufferString(elem(value))))
@ <vortex_scalar::value::ScalarValue as core::convert::From<bool>>::from args=value
Bool(value)
@ <vortex_scalar::value::ScalarValue as core::convert::From<bytes::bytes::Bytes>>::from args=value
Buffer(Bytes(value))
@ <vortex_scalar::value::ScalarValue as core::convert::From<core::option::Option<T>>>::from args=value
or(value, Null)
@ <vortex_scalar::value::ScalarValue as core::convert::From<f32>>::from args=value
Primitive(F32(value))
@ <vortex_scalar::value::ScalarValue as core::convert::From<f64>>::from args=value
Primitive(F64(value))
@ <vortex_scalar::value::ScalarValue as core::convert::From<half::binary16::f16>>::from args=value
Primitive(F16(value))
@ <vortex_scalar::value::ScalarValue as core::convert::From<i16>>::from args=value
Primitive(I16(value))
@ <vortex_scalar::value::ScalarValue as core::convert::From<i32>>::from args=value
Primitive(I32(value))
@ <vortex_scalar::value::ScalarValue as core::convert::From<i64>>::from args=value
Primitive(I64(value))
@ <vortex_scalar::value::ScalarValue as core::convert::From<i8>>::from args=value
Primitive(I8(value))
@ <vortex_scalar::value::ScalarValue as core::convert::From<u16>>::from args=value
Primitive(U16(value))
@ <vortex_scalar::value::ScalarValue as core::convert::From<u32>>::from args=value
Primitive(U32(value))
@ <vortex_scalar::value::ScalarValue as core::convert::From<u64>>::from args=value
Primitive(U64(value))
@ <vortex_scalar::value::ScalarValue as core::convert::From<u8>>::from args=value
Primitive(U8(value))
@ <vortex_scalar::value::ScalarValue as core::convert::From<usize>>::from args=value
Primitive(U64(value))
@ <vortex_scalar::value::ScalarValue as core::convert::From<vortex_buffer::Buffer>>::from args=value
Buffer(value)
@ <vortex_scalar::value::ScalarValue as core::convert::From<vortex_buffer::string::BufferString>>::from args=value
BufferString(value)
@ <vortex_scalar::value::ScalarValue>::as_bool args=self
None <- self is Null
self@Bool.0 <- self is Bool
@ <vortex_scalar::value::ScalarValue>::as_buffer args=self
None <- self is Null
self@Buffer.0 <- self is Buffer
@ <vortex_scalar::value::ScalarValue>::as_buffer_string args=self
None <- self is Null
TryFrom.try_from(self@Buffer.0) <- self is Buffer
self@BufferString.0 <- self is BufferString
@ <vortex_scalar::value::ScalarValue>::as_list args=self
None <- self is Null
self@List.0 <- self is List
@ <vortex_scalar::value::ScalarValue>::as_pvalue args=self
None <- self is Null
self@Primitive.0 <- self is Primitive
@ <vortex_scalar::value::ScalarValue>::is_instance_of args=self,dtype
False <- self is Bool|Buffer|BufferString|List|Primitive
True <- dtype is Binary & self is Buffer
True <- dtype is Bool & self is Bool
True <- dtype is Utf8 & self is BufferString
iall(self@List.0, is_instance_of(elem(self@List.0), dtype@List.0)) <- dtype is List & self is List
iall(zip(self@List.0, dtype@Struct.0.dtypes), is_instance_of(elem(self@List.0), elem(dtype@Struct.0.dtypes))) <- dtype is Struct & self is List
is_instance_of(self@Primitive.0, dtype@Primitive.0) <- dtype is Primitive & self is Primitive
nullability(dtype) is Nullable <- self is Null
@ <vortex_scalar::value::ScalarValue>::is_null args=self
self is Null
'''
ARROW = r'''
@ <arrow_array::record_batch::RecordBatch as core::convert::TryFrom<vortex::Array>>::try_from args=value
TryFrom.try_from(value)
@ <arrow_array::record_batch::RecordBatch as core::convert::TryFrom<vortex::array::struct_::StructArray>>::try_from args=value
as_struct_array(into_arrow(value))
@ <arrow_schema::datatype::TimeUnit as core::convert::TryFrom<vortex_datetime_dtype::unit::TimeUnit>>::try_from args=value
{Microsecond <- value is Us | Millisecond <- value is Ms | Nanosecond <- value is Ns | Second <- value is S}
@ <u8 as core::convert::From<vortex_datetime_dtype::unit::TimeUnit>>::from args=enum_value
discr(enum_value)
@ <vortex::Array as core::convert::From<arrow_buffer::buffer::immutable::Buffer>>::from args=value
PrimitiveArray.new(Arrow(value), U8, NonNullable)
@ <vortex::Array as core::convert::From<arrow_buffer::buffer::null::NullBuffer>>::from args=value
BoolArray.try_new(value, NonNullable)
@ <vortex::Array as core::convert::From<arrow_buffer::buffer::offset::OffsetBuffer<O>>>::from args=value
PrimitiveArray.new(Arrow(value), PTYPE, NonNullable)
@ <vortex::Array as core::convert::From<arrow_buffer::buffer::scalar::ScalarBuffer<T>>>::from args=value
PrimitiveArray.new(Arrow(value), PTYPE, NonNullable)
@ <vortex::Array as core::convert::TryFrom<arrow_array::record_batch::RecordBatch>>::try_from args=value
StructArray.try_new(each(name(elem(fields(schema(value))))), each(Arc.from_arrow(elem(columns(value)), is_nullable(elem(fields(schema(value)))))), num_rows(value), NonNullable)
@ <vortex::Array as vortex::arrow::FromArrowArray<&arrow_array::array::boolean_array::BooleanArray>>::from_arrow args=value,nullable
BoolArray.try_new(values(value), nulls(nulls(value), nullable))
@ <vortex::Array as vortex::arrow::FromArrowArray<&arrow_array::array::byte_array::GenericByteArray<T>>>::from_arrow args=value,nullable
VarBinArray.try_new(PrimitiveArray.new(Arrow(offsets(value)), PTYPE, NonNullable), PrimitiveArray.new(Arrow(values(value)), U8, NonNullable), {Binary({NonNullable <- !nullable | Nullable <- nullable}) | Utf8({NonNullable <- !nullable | Nullable <- nullable})}, nulls(nulls(value), nullable))
@ <vortex::Array as vortex::arrow::FromArrowArray<&arrow_array::array::byte_view_array::GenericByteViewArray<T>>>::from_arrow args=value,nullable
VarBinViewArray.try_new(PrimitiveArray.new(Arrow(inner(views(value))), U8, NonNullable), each(PrimitiveArray.new(Arrow(elem(data_buffers(value))), U8, NonNullable)), {Binary({NonNullable <- !nullable | Nullable <- nullable}) | Utf8({NonNullable <- !nullable | Nullable <- nullable})}, nulls(nulls(value), nullable))
@ <vortex::Array as vortex::arrow::FromArrowArray<&arrow_array::array::null_array::NullArray>>::from_arrow args=value,nullable
NullArray.new(len(value))
@ <vortex::Array as vortex::arrow::FromArrowArray<&arrow_array::array::primitive_array::PrimitiveArray<T>>>::from_arrow args=value,nullable
ExtensionArray.new(ExtDType(get(('#', ('static', '<vortex_datetime_dtype::temporal::DATE_ID as core::ops::deref::Deref>::deref::__stability::LAZY')), fn:<DATE_ID as Deref>::__static_ref_initialize), ExtMetadata(Vec.new().push(discr(D)))), PrimitiveArray.new(Arrow(values(value)), PTYPE, nulls(nulls(value), nullable))) <- !is_numeric(DATA_TYPE) & dtype(PrimitiveArray.new(Arrow(values(value)), PTYPE, nulls(nulls(value), nullable)))@Primitive.0 is I32
ExtensionArray.new(ExtDType(get(('#', ('static', '<vortex_datetime_dtype::temporal::DATE_ID as core::ops::deref::Deref>::deref::__stability::LAZY')), fn:<DATE_ID as Deref>::__static_ref_initialize), ExtMetadata(Vec.new().push(discr(Ms)))), PrimitiveArray.new(Arrow(values(value)), PTYPE, nulls(nulls(value), nullable))) <- !is_numeric(DATA_TYPE) & dtype(PrimitiveArray.new(Arrow(values(value)), PTYPE, nulls(nulls(value), nullable)))@Primitive.0 is I64
ExtensionArray.new(ExtDType(get(('#', ('static', '<vortex_datetime_dtype::temporal::TIMESTAMP_ID as core::ops::deref::Deref>::deref::__stability::LAZY')), fn:<TIMESTAMP_ID as Deref>::__static_ref_initialize), ExtMetadata(or(Vec.new().push(discr({Ms <- DATA_TYPE@Timestamp.0 is Millisecond | Ns <- DATA_TYPE@Timestamp.0 is Nanosecond | S <- DATA_TYPE@Timestamp.0 is Second | Us <- DATA_TYPE@Timestamp.0 is Microsecond})).extend_from_slice(to_le_bytes(TryFrom.try_from(len(DATA_TYPE@Timestamp.1)))).extend_from_slice(DATA_TYPE@Timestamp.1), Vec.new().push(discr({Ms <- DATA_TYPE@Timestamp.0 is Millisecond | Ns <- DATA_TYPE@Timestamp.0 is Nanosecond | S <- DATA_TYPE@Timestamp.0 is Second | Us <- DATA_TYPE@Timestamp.0 is Microsecond})).extend_from_slice(to_le_bytes(0))))), PrimitiveArray.new(Arrow(values(value)), PTYPE, nulls(nulls(value), nullable))) <- !is_numeric(DATA_TYPE) & dtype(PrimitiveArray.new(Arrow(values(value)), PTYPE, nulls(nulls(value), nullable)))@Primitive.0 is I64
ExtensionArray.new(ExtDType(get(('#', ('static', '<vortex_datetime_dtype::temporal::TIME_ID as core::ops::deref::Deref>::deref::__stability::LAZY')), fn:<TIME_ID as Deref>::__static_ref_initialize), ExtMetadata(Vec.new().push(discr({Ms <- DATA_TYPE@Time32.0 is Millisecond | Ns <- DATA_TYPE@Time32.0 is Nanosecond | S <- DATA_TYPE@Time32.0 is Second | Us <- DATA_TYPE@Time32.0 is Microsecond})))), PrimitiveArray.new(Arrow(values(value)), PTYPE, nulls(nulls(value), nullable))) <- !is_numeric(DATA_TYPE) & dtype(PrimitiveArray.new(Arrow(values(value)), PTYPE, nulls(nulls(value), nullable)))@Primitive.0 is I32|I64
ExtensionArray.new(ExtDType(get(('#', ('static', '<vortex_datetime_dtype::temporal::TIME_ID as core::ops::deref::Deref>::deref::__stability::LAZY')), fn:<TIME_ID as Deref>::__static_ref_initialize), ExtMetadata(Vec.new().push(discr({Ms <- DATA_TYPE@Time64.0 is Millisecond | Ns <- DATA_TYPE@Time64.0 is Nanosecond | S <- DATA_TYPE@Time64.0 is Second | Us <- DATA_TYPE@Time64.0 is Microsecond})))), PrimitiveArray.new(Arrow(values(value)), PTYPE, nulls(nulls(value), nullable))) <- !is_numeric(DATA_TYPE) & dtype(PrimitiveArray.new(Arrow(values(value)), PTYPE, nulls(nulls(value), nullable)))@Primitive.0 is I32|I64
PrimitiveArray.new(Arrow(values(value)), PTYPE, nulls(nulls(value), nullable)) <- is_numeric(DATA_TYPE)
@ <vortex::Array as vortex::arrow::FromArrowArray<&arrow_array::array::struct_array::StructArray>>::from_arrow args=value,nullable
StructArray.try_new(each(elem(column_names(value))), each(Arc.from_arrow(elem(columns(value)), is_nullable(elem(fields(value))))), len(value), nulls(nulls(value), nullable))
@ <vortex::Array as vortex::arrow::FromArrowArray<alloc::rcs::arc::Arc<dyn arrow_array::array::Array, alloc::alloc::Global>>>::from_arrow args=array,nullable
FromArrowArray.from_arrow(as_boolean(array), nullable) <- data_type(array) is Boolean
FromArrowArray.from_arrow(as_null_array(array), nullable) <- data_type(array) is Null
FromArrowArray.from_arrow(as_struct(array), nullable) <- data_type(array) is Struct
GenericByteArray.from_arrow(as_binary(array), nullable) <- data_type(array) is Binary|LargeBinary
GenericByteArray.from_arrow(as_string(array), nullable) <- data_type(array) is LargeUtf8|Utf8
GenericByteViewArray.from_arrow(downcast_ref(as_any(array)), nullable) <- data_type(array) is BinaryView|Utf8View
PrimitiveArray.from_arrow(as_primitive(array), nullable) <- data_type(array) is Date32|Date64|Duration|Float16|Float32|Float64|Int16|Int32|Int64|Int8|Time32|Time64|Timestamp|UInt16|UInt32|UInt64|UInt8
@ <vortex_datetime_dtype::temporal::TemporalMetadata as core::convert::TryFrom<&vortex_dtype::extension::ExtDType>>::try_from args=ext_dtype
Date(TryFrom.try_from(index(metadata(ext_dtype).0, 0))) <- !Eq(ext_dtype.id.0, get(('#', ('static', '<vortex_datetime_dtype::temporal::TIME_ID as core::ops::deref::Deref>::deref::__stability::LAZY')), fn:<TIME_ID as Deref>::__static_ref_initialize).0) & Eq(ext_dtype.id.0, get(('#', ('static', '<vortex_datetime_dtype::temporal::DATE_ID as core::ops::deref::Deref>::deref::__stability::LAZY')), fn:<DATE_ID as Deref>::__static_ref_initialize).0)
Time(TryFrom.try_from(index(metadata(ext_dtype).0, 0))) <- Eq(ext_dtype.id.0, get(('#', ('static', '<vortex_datetime_dtype::temporal::TIME_ID as core::ops::deref::Deref>::deref::__stability::LAZY')), fn:<TIME_ID as Deref>::__static_ref_initialize).0)
Timestamp(TryFrom.try_from(index(metadata(ext_dtype).0, 0)), None) <- !Eq(ext_dtype.id.0, get(('#', ('static', '<vortex_datetime_dtype::temporal::DATE_ID as core::ops::deref::Deref>::deref::__stability::LAZY')), fn:<DATE_ID as Deref>::__static_ref_initialize).0) & !Eq(ext_dtype.id.0, get(('#', ('static', '<vortex_datetime_dtype::temporal::TIME_ID as core::ops::deref::Deref>::deref::__stability::LAZY')), fn:<TIME_ID as Deref>::__static_ref_initialize).0) & Eq(0, u16.from_le_bytes(TryFrom.try_from(index(metadata(ext_dtype).0, 1..[3]))))
Timestamp(TryFrom.try_from(index(metadata(ext_dtype).0, 0)), String.from_utf8_lossy(index(metadata(ext_dtype).0, [3]..[u16.from_le_bytes(TryFrom.try_from(index(metadata(ext_dtype).0, 1..[3]))) + 3]))) <- !Eq(0, u16.from_le_bytes(TryFrom.try_from(index(metadata(ext_dtype).0, 1..[3])))) & !Eq(ext_dtype.id.0, get(('#', ('static', '<vortex_datetime_dtype::temporal::DATE_ID as core::ops::deref::Deref>::deref::__stability::LAZY')), fn:<DATE_ID as Deref>::__static_ref_initialize).0) & !Eq(ext_dtype.id.0, get(('#', ('static', '<vortex_datetime_dtype::temporal::TIME_ID as core::ops::deref::Deref>::deref::__stability::LAZY')), fn:<TIME_ID as Deref>::__static_ref_initialize).0)
@ <vortex_datetime_dtype::temporal::TemporalMetadata>::time_unit args=self
self@*
@ <vortex_datetime_dtype::temporal::TemporalMetadata>::time_zone args=self
None <- self is Date|Time
self@Timestamp.1 <- self is Timestamp
@ <vortex_datetime_dtype::temporal::TemporalMetadata>::to_jiff args=self,v
Date(checked_add(Date.new(1970, 1, 1), {try_days(Span.new(), v) <- self@Date.0 is D | try_milliseconds(Span.new(), v) <- self@Date.0 is Ms})) <- self is Date
Time(checked_add(Time(ri8(0, 0, 23), ri8(0, 0, 59), ri8(0, 0, 59), ri32(0, 0, 999999999)), {try_microseconds(Span.new(), v) <- self@Time.0 is Us | try_milliseconds(Span.new(), v) <- self@Time.0 is Ms | try_nanoseconds(Span.new(), v) <- self@Time.0 is Ns | try_seconds(Span.new(), v) <- self@Time.0 is S})) <- self is Time
or(Zoned(intz(checked_add(Timestamp(ri64(0, 0, 0), ri32(0, 0, 0)), {try_microseconds(Span.new(), v) <- self@Timestamp.0 is Us | try_milliseconds(Span.new(), v) <- self@Timestamp.0 is Ms | try_nanoseconds(Span.new(), v) <- self@Timestamp.0 is Ns | try_seconds(Span.new(), v) <- self@Timestamp.0 is S}), self@Timestamp.1)), Timestamp(checked_add(Timestamp(ri64(0, 0, 0), ri32(0, 0, 0)), {try_microseconds(Span.new(), v) <- self@Timestamp.0 is Us | try_milliseconds(Span.new(), v) <- self@Timestamp.0 is Ms | try_nanoseconds(Span.new(), v) <- self@Timestamp.0 is Ns | try_seconds(Span.new(), v) <- self@Timestamp.0 is S}))) <- self is Timestamp
@ <vortex_datetime_dtype::unit::TimeUnit as core::convert::From<&arrow_schema::datatype::TimeUnit>>::from args=value
Ms <- value is Millisecond
Ns <- value is Nanosecond
S <- value is Second
Us <- value is Microsecond
@ <vortex_datetime_dtype::unit::TimeUnit as core::convert::From<arrow_schema::datatype::TimeUnit>>::from args=value
Ms <- value is Millisecond
Ns <- value is Nanosecond
S <- value is Second
Us <- value is Microsecond
@ <vortex_datetime_dtype::unit::TimeUnit as core::convert::TryFrom<u8>>::try_from args=number
D <- Eq(4, number)
Ms <- Eq(2, number)
Ns <- Eq(0, number)
S <- Eq(3, number)
Us <- Eq(1, number)
@ <vortex_datetime_dtype::unit::TimeUnit as num_enum::TryFromPrimitive>::try_from_primitive args=number
D <- Eq(4, number)
Ms <- Eq(2, number)
Ns <- Eq(0, number)
S <- Eq(3, number)
Us <- Eq(1, number)
@ <vortex_datetime_dtype::unit::TimeUnit>::to_jiff_span args=self,v
{try_days(Span.new(), v) <- self is D | try_microseconds(Span.new(), v) <- self is Us | try_milliseconds(Span.new(), v) <- self is Ms | try_nanoseconds(Span.new(), v) <- self is Ns | try_seconds(Span.new(), v) <- self is S}
@ <vortex_dtype::dtype::DType as vortex::arrow::FromArrowType<&arrow_schema::field::Field>>::from_arrow args=field
Binary({NonNullable <- !is_nullable(field) | Nullable <- is_nullable(field)}) <- data_type(field) is Binary|BinaryView|LargeBinary
Bool({NonNullable <- !is_nullable(field) | Nullable <- is_nullable(field)}) <- data_type(field) is Boolean
Extension({ExtDType(get(('#', ('static', '<vortex_datetime_dtype::temporal::DATE_ID as core::ops::deref::Deref>::deref::__stability::LAZY')), fn:<DATE_ID as Deref>::__static_ref_initialize), ExtMetadata(Vec.new().push(discr(D)))) <- data_type(field) is Date32 | ExtDType(get(('#', ('static', '<vortex_datetime_dtype::temporal::DATE_ID as core::ops::deref::Deref>::deref::__stability::LAZY')), fn:<DATE_ID as Deref>::__static_ref_initialize), ExtMetadata(Vec.new().push(discr(Ms)))) <- data_type(field) is Date64 | ExtDType(get(('#', ('static', '<vortex_datetime_dtype::temporal::TIMESTAMP_ID as core::ops::deref::Deref>::deref::__stability::LAZY')), fn:<TIMESTAMP_ID as Deref>::__static_ref_initialize), ExtMetadata(or(Vec.new().push(discr({Ms <- data_type(field)@Timestamp.0 is Millisecond | Ns <- data_type(field)@Timestamp.0 is Nanosecond | S <- data_type(field)@Timestamp.0 is Second | Us <- data_type(field)@Timestamp.0 is Microsecond})).extend_from_slice(to_le_bytes(TryFrom.try_from(len(data_type(field)@Timestamp.1)))).extend_from_slice(data_type(field)@Timestamp.1), Vec.new().push(discr({Ms <- data_type(field)@Timestamp.0 is Millisecond | Ns <- data_type(field)@Timestamp.0 is Nanosecond | S <- data_type(field)@Timestamp.0 is Second | Us <- data_type(field)@Timestamp.0 is Microsecond})).extend_from_slice(to_le_bytes(0))))) <- data_type(field) is Timestamp | ExtDType(get(('#', ('static', '<vortex_datetime_dtype::temporal::TIME_ID as core::ops::deref::Deref>::deref::__stability::LAZY')), fn:<TIME_ID as Deref>::__static_ref_initialize), ExtMetadata(Vec.new().push(discr({Ms <- data_type(field)@Time32.0 is Millisecond | Ns <- data_type(field)@Time32.0 is Nanosecond | S <- data_type(field)@Time32.0 is Second | Us <- data_type(field)@Time32.0 is Microsecond})))) <- data_type(field) is Time32 | ExtDType(get(('#', ('static', '<vortex_datetime_dtype::temporal::TIME_ID as core::ops::deref::Deref>::deref::__stability::LAZY')), fn:<TIME_ID as Deref>::__static_ref_initialize), ExtMetadata(Vec.new().push(discr({Ms <- data_type(field)@Time64.0 is Millisecond | Ns <- data_type(field)@Time64.0 is Nanosecond | S <- data_type(field)@Time64.0 is Second | Us <- data_type(field)@Time64.0 is Microsecond})))) <- data_type(field) is Time64}, {NonNullable <- !is_nullable(field) | Nullable <- is_nullable(field)}) <- data_type(field) is Date32|Date64|Time32|Time64|Timestamp
List(FromArrowType.from_arrow(data_type(field)@*), {NonNullable <- !is_nullable(field) | Nullable <- is_nullable(field)}) <- data_type(field) is LargeList|List
Primitive({F16 <- data_type(field) is Float16 | F32 <- data_type(field) is Float32 | F64 <- data_type(field) is Float64 | I16 <- data_type(field) is Int16 | I32 <- data_type(field) is Int32 | I64 <- data_type(field) is Int64 | I8 <- data_type(field) is Int8 | U16 <- data_type(field) is UInt16 | U32 <- data_type(field) is UInt32 | U64 <- data_type(field) is UInt64 | U8 <- data_type(field) is UInt8}, {NonNullable <- !is_nullable(field) | Nullable <- is_nullable(field)}) <- data_type(field) is Float16|Float32|Float64|Int16|Int32|Int64|Int8|UInt16|UInt32|UInt64|UInt8
Struct(StructDType(each(name(elem(data_type(field)@Struct.0))), each(FromArrowType.from_arrow(elem(data_type(field)@Struct.0)))), {NonNullable <- !is_nullable(field) | Nullable <- is_nullable(field)}) <- data_type(field) is Struct
Utf8({NonNullable <- !is_nullable(field) | Nullable <- is_nullable(field)}) <- data_type(field) is LargeUtf8|Utf8|Utf8View
data_type(field) <- data_type(field) is Null
@ <vortex_dtype::dtype::DType as vortex::arrow::FromArrowType<alloc::rcs::arc::Arc<arrow_schema::schema::Schema, alloc::alloc::Global>>>::from_arrow args=value
Struct(StructDType(each(name(elem(fields(value)))), each(FromArrowType.from_arrow(elem(fields(value))))), NonNullable)
@ <vortex_dtype::extension::ExtMetadata as core::convert::From<vortex_datetime_dtype::temporal::TemporalMetadata>>::from args=value
ExtMetadata(Vec.new().push(discr(value@*))) <- value is Date|Time
ExtMetadata(or(Vec.new().push(discr(value@Timestamp.0)).extend_from_slice(to_le_bytes(TryFrom.try_from(len(value@Timestamp.1)))).extend_from_slice(value@Timestamp.1), Vec.new().push(discr(value@Timestamp.0)).extend_from_slice(to_le_bytes(0)))) <- value is Timestamp
@ <vortex_dtype::ptype::PType as vortex::arrow::TryFromArrowType<&arrow_schema::datatype::DataType>>::try_from_arrow args=value
F16 <- value is Float16
F32 <- value is Float32
F64 <- value is Float64
I16 <- value is Int16
I32 <- value is Int32
I64 <- value is Int64
I8 <- value is Int8
U16 <- value is UInt16
U32 <- value is UInt32
U64 <- value is UInt64
U8 <- value is UInt8
@ vortex::arrow::array::nulls args=nulls,nullable
NonNullable <- !nullable
or({AllInvalid <- !Eq(count_set_bits(inner(nulls)), len(inner(nulls))) & Eq(0, count_set_bits(inner(nulls))) | AllInvalid <- Eq(len(nulls), null_count(nulls)) | AllValid <- !Eq(len(nulls), null_count(nulls)) & Eq(count_set_bits(inner(nulls)), len(inner(nulls))) | Array(BoolArray.try_new(inner(nulls), NonNullable)) <- !Eq(0, count_set_bits(inner(nulls))) & !Eq(count_set_bits(inner(nulls)), len(inner(nulls))) & !Eq(len(nulls), null_count(nulls))}, AllValid) <- nullable
@ vortex::arrow::dtype::infer_data_type args=dtype
{BinaryView <- dtype is Binary | Boolean <- dtype is Bool | Date32 <- TryFrom.try_from(dtype@Extension.0) is Date & TryFrom.try_from(dtype@Extension.0)@Date.0 is D & dtype is Extension | Date64 <- TryFrom.try_from(dtype@Extension.0) is Date & TryFrom.try_from(dtype@Extension.0)@Date.0 is Ms & dtype is Extension | Float16 <- dtype is Primitive & dtype@Primitive.0 is F16 | Float32 <- dtype is Primitive & dtype@Primitive.0 is F32 | Float64 <- dtype is Primitive & dtype@Primitive.0 is F64 | Int16 <- dtype is Primitive & dtype@Primitive.0 is I16 | Int32 <- dtype is Primitive & dtype@Primitive.0 is I32 | Int64 <- dtype is Primitive & dtype@Primitive.0 is I64 | Int8 <- dtype is Primitive & dtype@Primitive.0 is I8 | Struct(each(Field.new(elem(dtype@Struct.0.names), infer_data_type(elem(dtype@Struct.0.dtypes)), nullability(elem(dtype@Struct.0.dtypes)) is Nullable))) <- dtype is Struct | Time32(Millisecond) <- TryFrom.try_from(dtype@Extension.0) is Time & TryFrom.try_from(dtype@Extension.0)@Time.0 is Ms & dtype is Extension | Time32(Second) <- TryFrom.try_from(dtype@Extension.0) is Time & TryFrom.try_from(dtype@Extension.0)@Time.0 is S & dtype is Extension | Time64(Microsecond) <- TryFrom.try_from(dtype@Extension.0) is Time & TryFrom.try_from(dtype@Extension.0)@Time.0 is Us & dtype is Extension | Time64(Nanosecond) <- TryFrom.try_from(dtype@Extension.0) is Time & TryFrom.try_from(dtype@Extension.0)@Time.0 is Ns & dtype is Extension | Timestamp(Microsecond, TryFrom.try_from(dtype@Extension.0)@Timestamp.1) <- TryFrom.try_from(dtype@Extension.0) is Timestamp & TryFrom.try_from(dtype@Extension.0)@Timestamp.0 is Us & dtype is Extension | Timestamp(Millisecond, TryFrom.try_from(dtype@Extension.0)@Timestamp.1) <- TryFrom.try_from(dtype@Extension.0) is Timestamp & TryFrom.try_from(dtype@Extension.0)@Timestamp.0 is Ms & dtype is Extension | Timestamp(Nanosecond, TryFrom.try_from(dtype@Extension.0)@Timestamp.1) <- TryFrom.try_from(dtype@Extension.0) is Timestamp & TryFrom.try_from(dtype@Extension.0)@Timestamp.0 is Ns & dtype is Extension | Timestamp(Second, TryFrom.try_from(dtype@Extension.0)@Timestamp.1) <- TryFrom.try_from(dtype@Extension.0) is Timestamp & TryFrom.try_from(dtype@Extension.0)@Timestamp.0 is S & dtype is Extension | UInt16 <- dtype is Primitive & dtype@Primitive.0 is U16 | UInt32 <- dtype is Primitive & dtype@Primitive.0 is U32 | UInt64 <- dtype is Primitive & dtype@Primitive.0 is U64 | UInt8 <- dtype is Primitive & dtype@Primitive.0 is U8 | Utf8View <- dtype is Utf8 | dtype <- dtype is Null}
@ vortex::arrow::dtype::infer_schema args=dtype
finish(loop{SchemaBuilder.with_capacity() | each(Field.new(elem(dtype@Struct.0.names), infer_data_type(elem(dtype@Struct.0.dtypes)), nullability(elem(dtype@Struct.0.dtypes)) is Nullable))})
@ vortex::arrow::wrappers::as_offset_buffer args=array
new_unchecked(into_arrow({array@Data.0.buffer <- array is Data | index(array@View.0.buffers, get(Table.new(array@View.0.flatbuffer, array@View.0.flatbuffer_loc), 6, None)) <- array is View}))
@ vortex::arrow::wrappers::as_scalar_buffer args=array
into_arrow({array@Data.0.buffer <- array is Data | index(array@View.0.buffers, get(Table.new(array@View.0.flatbuffer@*, array@View.0.flatbuffer_loc), 6, None)) <- array is View})
@ vortex_datetime_dtype::arrow::make_arrow_temporal_dtype args=ext_dtype
Date32 <- TryFrom.try_from(ext_dtype) is Date & TryFrom.try_from(ext_dtype)@Date.0 is D
Date64 <- TryFrom.try_from(ext_dtype) is Date & TryFrom.try_from(ext_dtype)@Date.0 is Ms
Time32(Millisecond) <- TryFrom.try_from(ext_dtype) is Time & TryFrom.try_from(ext_dtype)@Time.0 is Ms
Time32(Second) <- TryFrom.try_from(ext_dtype) is Time & TryFrom.try_from(ext_dtype)@Time.0 is S
Time64(Microsecond) <- TryFrom.try_from(ext_dtype) is Time & TryFrom.try_from(ext_dtype)@Time.0 is Us
Time64(Nanosecond) <- TryFrom.try_from(ext_dtype) is Time & TryFrom.try_from(ext_dtype)@Time.0 is Ns
Timestamp(Microsecond, TryFrom.try_from(ext_dtype)@Timestamp.1) <- TryFrom.try_from(ext_dtype) is Timestamp & TryFrom.try_from(ext_dtype)@Timestamp.0 is Us
Timestamp(Millisecond, TryFrom.try_from(ext_dtype)@Timestamp.1) <- TryFrom.try_from(ext_dtype) is Timestamp & TryFrom.try_from(ext_dtype)@Timestamp.0 is Ms
Timestamp(Nanosecond, TryFrom.try_from(ext_dtype)@Timestamp.1) <- TryFrom.try_from(ext_dtype) is Timestamp & TryFrom.try_from(ext_dtype)@Timestamp.0 is Ns
Timestamp(Second, TryFrom.try_from(ext_dtype)@Timestamp.1) <- TryFrom.try_from(ext_dtype) is Timestamp & TryFrom.try_from(ext_dtype)@Timestamp.0 is S
@ vortex_datetime_dtype::arrow::make_temporal_ext_dtype args=data_type
ExtDType(get(('#', ('static', '<vortex_datetime_dtype::temporal::DATE_ID as core::ops::deref::Deref>::deref::__stability::LAZY')), fn:<DATE_ID as Deref>::__static_ref_initialize), ExtMetadata(Vec.new().push(discr(D)))) <- data_type is Date32
ExtDType(get(('#', ('static', '<vortex_datetime_dtype::temporal::DATE_ID as core::ops::deref::Deref>::deref::__stability::LAZY')), fn:<DATE_ID as Deref>::__static_ref_initialize), ExtMetadata(Vec.new().push(discr(Ms)))) <- data_type is Date64
ExtDType(get(('#', ('static', '<vortex_datetime_dtype::temporal::TIMESTAMP_ID as core::ops::deref::Deref>::deref::__stability::LAZY')), fn:<TIMESTAMP_ID as Deref>::__static_ref_initialize), ExtMetadata(or(Vec.new().push(discr({Ms <- data_type@Timestamp.0 is Millisecond | Ns <- data_type@Timestamp.0 is Nanosecond | S <- data_type@Timestamp.0 is Second | Us <- data_type@Timestamp.0 is Microsecond})).extend_from_slice(to_le_bytes(TryFrom.try_from(len(data_type@Timestamp.1)))).extend_from_slice(data_type@Timestamp.1), Vec.new().push(discr({Ms <- data_type@Timestamp.0 is Millisecond | Ns <- data_type@Timestamp.0 is Nanosecond | S <- data_type@Timestamp.0 is Second | Us <- data_type@Timestamp.0 is Microsecond})).extend_from_slice(to_le_bytes(0))))) <- data_type is Timestamp
ExtDType(get(('#', ('static', '<vortex_datetime_dtype::temporal::TIME_ID as core::ops::deref::Deref>::deref::__stability::LAZY')), fn:<TIME_ID as Deref>::__static_ref_initialize), ExtMetadata(Vec.new().push(discr({Ms <- data_type@Time32.0 is Millisecond | Ns <- data_type@Time32.0 is Nanosecond | S <- data_type@Time32.0 is Second | Us <- data_type@Time32.0 is Microsecond})))) <- data_type is Time32
ExtDType(get(('#', ('static', '<vortex_datetime_dtype::temporal::TIME_ID as core::ops::deref::Deref>::deref::__stability::LAZY')), fn:<TIME_ID as Deref>::__static_ref_initialize), ExtMetadata(Vec.new().push(discr({Ms <- data_type@Time64.0 is Millisecond | Ns <- data_type@Time64.0 is Nanosecond | S <- data_type@Time64.0 is Second | Us <- data_type@Time64.0 is Microsecond})))) <- data_type is Time64
@ vortex_datetime_dtype::temporal::decode_date_metadata args=ext_meta
Date(TryFrom.try_from(index(ext_meta.0, 0)))
@ vortex_datetime_dtype::temporal::decode_time_metadata args=ext_meta
Time(TryFrom.try_from(index(ext_meta.0, 0)))
@ vortex_datetime_dtype::temporal::decode_timestamp_metadata args=ext_meta
Timestamp(TryFrom.try_from(index(ext_meta.0, 0)), None) <- Eq(0, u16.from_le_bytes(TryFrom.try_from(index(ext_meta.0, 1..[3]))))
Timestamp(TryFrom.try_from(index(ext_meta.0, 0)), String.from_utf8_lossy(index(ext_meta.0, [3]..[u16.from_le_bytes(TryFrom.try_from(index(ext_meta.0, 1..[3]))) + 3]))) <- !Eq(0, u16.from_le_bytes(TryFrom.try_from(index(ext_meta.0, 1..[3]))))
@ vortex_datetime_dtype::temporal::is_temporal_ext_type args=id
contains([get(('#', ('static', '<vortex_datetime_dtype::temporal::DATE_ID as core::ops::deref::Deref>::deref::__stability::LAZY')), fn:<DATE_ID as Deref>::__static_ref_initialize), get(('#', ('static', '<vortex_datetime_dtype::temporal::TIME_ID as core::ops::deref::Deref>::deref::__stability::LAZY')), fn:<TIME_ID as Deref>::__static_ref_initialize), get(('#', ('static', '<vortex_datetime_dtype::temporal::TIMESTAMP_ID as core::ops::deref::Deref>::deref::__stability::LAZY')), fn:<TIMESTAMP_ID as Deref>::__static_ref_initialize)], id)
'''
BUFFER = r'''
@ <&[u8] as vortex_buffer::io_buf::IoBuf>::as_slice args=self
self
@ <&[u8] as vortex_buffer::io_buf::IoBuf>::bytes_init args=self
len(self)
@ <&[u8] as vortex_buffer::io_buf::IoBuf>::read_ptr args=self
as_ptr(self)
@ <[u8; N] as vortex_buffer::io_buf::IoBuf>::as_slice args=self
self
@ <[u8; N] as vortex_buffer::io_buf::IoBuf>::bytes_init args=self
N
@ <[u8; N] as vortex_buffer::io_buf::IoBuf>::read_ptr args=self
as_ptr(self)
@ <alloc::vec::Vec<u8, alloc::alloc::Global> as vortex_buffer::io_buf::IoBuf>::as_slice args=self
self
@ <alloc::vec::Vec<u8, alloc::alloc::Global> as vortex_buffer::io_buf::IoBuf>::bytes_init args=self
len(self)
@ <alloc::vec::Vec<u8, alloc::alloc::Global> as vortex_buffer::io_buf::IoBuf>::read_ptr args=self
as_ptr(self)
@ <vortex_buffer::Buffer as core::cmp::PartialEq<vortex_buffer::Buffer>>::eq args=self,other
Eq(other@*, self@*)
@ <vortex_buffer::Buffer as core::cmp::PartialOrd<vortex_buffer::Buffer>>::partial_cmp args=self,other
partial_cmp(self@*, other@*)
@ <vortex_buffer::Buffer as core::convert::AsRef<[u8]>>::as_ref args=self
self@*
@ <vortex_buffer::Buffer as core::convert::From<&[u8]>>::from args=value
Arrow(value)
@ <vortex_buffer::Buffer as core::convert::From<alloc::vec::Vec<T, alloc::alloc::Global>>>::from args=value
Arrow(Buffer.from_vec(value))
@ <vortex_buffer::Buffer as core::convert::From<arrow_buffer::buffer::immutable::Buffer>>::from args=value
Arrow(value)
@ <vortex_buffer::Buffer as core::convert::From<arrow_buffer::buffer::mutable::MutableBuffer>>::from args=value
Arrow(value)
@ <vortex_buffer::Buffer as core::convert::From<bytes::bytes::Bytes>>::from args=value
Bytes(value)
@ <vortex_buffer::Buffer as core::convert::From<vortex_buffer::string::BufferString>>::from args=value
value.0
@ <vortex_buffer::Buffer as core::ops::deref::Deref>::deref args=self
self@*
@ <vortex_buffer::Buffer as flexbuffers::buffer::Buffer>::buffer_str args=self
TryFrom.try_from(self)
@ <vortex_buffer::Buffer as flexbuffers::buffer::Buffer>::empty
Arrow(MutableBuffer.from_len_zeroed(0))
@ <vortex_buffer::Buffer as flexbuffers::buffer::Buffer>::slice args=self,range
None <- !Lt(range.start, len(self))
None <- !Lt(range.start, range.end)
None <- Lt(len(self), range.end)
slice(self, range) <- !Lt(len(self), range.end) & Lt(range.start, len(self)) & Lt(range.start, range.end)
@ <vortex_buffer::Buffer as vortex_buffer::io_buf::IoBuf>::as_slice args=self
self@*
@ <vortex_buffer::Buffer as vortex_buffer::io_buf::IoBuf>::bytes_init args=self
len(self)
@ <vortex_buffer::Buffer as vortex_buffer::io_buf::IoBuf>::read_ptr args=self
as_ptr(self@*)
@ <vortex_buffer::Buffer>::as_slice args=self
self@*
@ <vortex_buffer::Buffer>::from_len_zeroed args=len
Arrow(MutableBuffer.from_len_zeroed(len))
@ <vortex_buffer::Buffer>::into_arrow args=self
Buffer.from_vec(self@Bytes.0) <- self is Bytes
self@Arrow.0 <- self is Arrow
@ <vortex_buffer::Buffer>::into_vec args=self
into_vec(self@Arrow.0)
@ <vortex_buffer::Buffer>::len args=self
len(self@Arrow.0) <- self is Arrow
len(self@Bytes.0) <- self is Bytes
@ <vortex_buffer::Buffer>::slice args=self,range
Arrow(slice_with_length(self@Arrow.0, range.start, [range.end - range.start])) <- self is Arrow
Bytes(self@Bytes.0.truncate(0)) <- Eq(0, len(range)) & self is Bytes
Bytes(slice(self@Bytes.0, range)) <- !Eq(0, len(range)) & self is Bytes
@ <vortex_buffer::io_buf::Slice<T> as vortex_buffer::io_buf::IoBuf>::as_slice args=self
from_raw_parts(read_ptr(self), [-self.begin + self.end])
@ <vortex_buffer::io_buf::Slice<T> as vortex_buffer::io_buf::IoBuf>::bytes_init args=self
[-self.begin + self.end]
@ <vortex_buffer::io_buf::Slice<T> as vortex_buffer::io_buf::IoBuf>::read_ptr args=self
add(read_ptr(self.buf), self.begin)
@ <vortex_buffer::io_buf::Slice<T>>::into_inner args=self
self.buf
@ <vortex_buffer::string::BufferString as core::convert::AsRef<str>>::as_ref args=self
from_utf8_unchecked(self.0@*)
@ <vortex_buffer::string::BufferString as core::convert::From<alloc::string::String>>::from args=value
BufferString(Arrow(Buffer.from_vec(value)))
@ <vortex_buffer::string::BufferString as core::convert::TryFrom<vortex_buffer::Buffer>>::try_from args=value
BufferString(value)
@ <vortex_buffer::string::BufferString as core::ops::deref::Deref>::deref args=self
from_utf8_unchecked(self.0@*)
@ <vortex_buffer::string::BufferString>::as_str args=self
from_utf8_unchecked(self.0@*)
@ <vortex_buffer::string::BufferString>::new_unchecked args=buffer
BufferString(buffer)
@ vortex_buffer::io_buf::IoBuf::slice_owned args=self,range
Slice(self, range.start, range.end)
'''
def run(c):
    spec.run_tables(c, (('type', TYPE), ('scalar', SCALAR), ('arrow', ARROW), ('buffer', BUFFER),), 'must convert without loss', r'vortex::arrow::FromArrow.*::from_arrow$', ('scalar', 150))
    # Arrow may attach a null buffer without any nulls to what is declared not nullable: that is not the same as having none
    p = 'vortex::arrow::array::nulls'
    x = mk('arg', 1, 'nulls')
    r = c.run(p, {1: x, 2: mk('arg', 2, 'nullable')}) if c.body(p) else None
    if r is not None:
        for t, f in alts(r.e, r.ret):
            if t.op != 'agg' or t.a[1] != 'NonNullable': continue
            f = dict(r.facts or {}, **{}) if not f and getattr(r, 'facts', None) else f
            k = mk('D', x)
            c.req(not (k in f and f[k] == ('in', frozenset(['None']))) and not (f.get(mk('isvar', x, 'None')) == ('in', frozenset([True]))), 'arrow', p + ':empty-null-buffer', 'what is not nullable is refused when Arrow attached a null buffer to it, although the buffer may hold no null', c.where(p))
