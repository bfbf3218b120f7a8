from lib import *
import spec
ID = 'C21'
TITLE = 'Arrays are built only from parts that fit, and give those parts back'
RULE = 'the normal form of every constructor of an array (what it stores, and the tests on the parts under which it does), of every accessor (which child, with which type and length, which metadata), and of the typed views of an array, compared with the declared table'
BUILD = r'''
@ <vortex::array::bool::BoolArray>::from_vec args=bools,validity errs=1
BoolArray.try_new(bools, validity)
@ <vortex::array::bool::BoolArray>::try_from_parts args=dtype,len,metadata,children,stats errs=1
BoolArray(TypedArray(Data(ArrayData(ENCODING, dtype, len, metadata, None, children, RwLock.new(stats))), OnceLock.new()))
@ <vortex::array::bool::BoolArray>::try_new args=buffer,validity errs=1
BoolArray(TypedArray(Data(ArrayData(ENCODING, Bool(nullability(validity)), len(buffer), BoolMetadata(to_metadata(validity, len(buffer)), as_u8(rem(offset(buffer), 8))), Arrow(bit_slice(buffer, [-as_u8(rem(offset(buffer), 8)) + offset(buffer)], len(buffer))), validity, RwLock.new(StatsSet(HashMap.new())))), OnceLock.new()))
@ <vortex::array::chunked::ChunkedArray>::try_from_parts args=dtype,len,metadata,children,stats errs=1
ChunkedArray(TypedArray(Data(ArrayData(ENCODING, dtype, len, metadata, None, children, RwLock.new(stats))), OnceLock.new()))
@ <vortex::array::chunked::ChunkedArray>::try_new args=chunks,dtype errs=1
ChunkedArray.try_from_parts(dtype, last(fmap(chain([0], each(len(elem(chunks)))), [elem(chain([0], each(len(elem(chunks))))) + loop{0 | loop | loop{0 | loop}}])), ChunkedMetadata([len(fmap(chain([0], each(len(elem(chunks)))), [elem(chain([0], each(len(elem(chunks))))) + loop{0 | loop | loop{0 | loop}}])) - 1]), Vec.with_capacity().push(PrimitiveArray.from_vec(fmap(chain([0], each(len(elem(chunks)))), [elem(chain([0], each(len(elem(chunks))))) + loop{0 | loop | loop{0 | loop}}]), NonNullable)).extend(chunks), StatsSet(HashMap.new())) <- next(chunks) is None
@ <vortex::array::constant::ConstantArray>::try_from_parts args=dtype,len,metadata,children,stats errs=1
ConstantArray(TypedArray(Data(ArrayData(ENCODING, dtype, len, metadata, None, children, RwLock.new(stats))), OnceLock.new()))
@ <vortex::array::datetime::TemporalArray>::new_date args=array,time_unit errs=1
TemporalArray(ExtensionArray.new(ExtDType(get(('#', ('static', '<vortex_datetime_dtype::temporal::DATE_ID as core::ops::deref::Deref>::deref::__stability::LAZY')), fn:<DATE_ID as Deref>::__static_ref_initialize), ExtMetadata(Vec.new().push(discr(time_unit)))), array), Date(time_unit))
@ <vortex::array::datetime::TemporalArray>::new_time args=array,time_unit errs=1
TemporalArray(ExtensionArray.new(ExtDType(get(('#', ('static', '<vortex_datetime_dtype::temporal::TIME_ID as core::ops::deref::Deref>::deref::__stability::LAZY')), fn:<TIME_ID as Deref>::__static_ref_initialize), ExtMetadata(Vec.new().push(discr(time_unit)))), array), Time(time_unit))
@ <vortex::array::datetime::TemporalArray>::new_timestamp args=array,time_unit,time_zone errs=1
TemporalArray(ExtensionArray.new(ExtDType(get(('#', ('static', '<vortex_datetime_dtype::temporal::TIMESTAMP_ID as core::ops::deref::Deref>::deref::__stability::LAZY')), fn:<TIMESTAMP_ID as Deref>::__static_ref_initialize), ExtMetadata(or(Vec.new().push(discr(time_unit)).extend_from_slice(to_le_bytes(TryFrom.try_from(len(time_zone)))).extend_from_slice(time_zone), Vec.new().push(discr(time_unit)).extend_from_slice(to_le_bytes(0))))), array), Timestamp(time_unit, time_zone))
@ <vortex::array::extension::ExtensionArray>::new args=ext_dtype,storage errs=1
ExtensionArray.try_from_parts(Extension(ext_dtype, nullability(dtype(storage))), len(storage), ExtensionMetadata(dtype(storage)), [storage], default(vortex::stats::statsset::StatsSet))
@ <vortex::array::extension::ExtensionArray>::try_from_parts args=dtype,len,metadata,children,stats errs=1
ExtensionArray(TypedArray(Data(ArrayData(ENCODING, dtype, len, metadata, None, children, RwLock.new(stats))), OnceLock.new()))
@ <vortex::array::null::NullArray>::new args=len errs=1
NullArray.try_from_parts(Null, len, NullMetadata, [], StatsSet([(Min, Scalar(Null, Null)), (Max, Scalar(Null, Null)), (IsConstant, Scalar(Bool(NonNullable), Bool(True))), (IsSorted, Scalar(Bool(NonNullable), Bool(True))), (IsStrictSorted, Scalar(Bool(NonNullable), Bool(!Lt(1, len)))), (RunCount, Scalar(dtype(), 1)), (NullCount, Scalar(dtype(), len))]))
@ <vortex::array::null::NullArray>::try_from_parts args=dtype,len,metadata,children,stats errs=1
NullArray(TypedArray(Data(ArrayData(ENCODING, dtype, len, metadata, None, children, RwLock.new(stats))), OnceLock.new()))
@ <vortex::array::primitive::PrimitiveArray>::from_bytes args=bytes,validity errs=1
PrimitiveArray.new(Bytes(bytes), U8, validity)
@ <vortex::array::primitive::PrimitiveArray>::from_nullable_vec args=values errs=1
PrimitiveArray.from_vec(each(or(elem(values), default(T))), {AllInvalid <- !iall(values, isSome(elem(values))) & iall(values, !isSome(elem(values))) | AllValid <- iall(values, isSome(elem(values))) | Array(BoolArray.from_vec(each(isSome(elem(values))), NonNullable)) <- !iall(values, !isSome(elem(values))) & !iall(values, isSome(elem(values)))})
@ <vortex::array::primitive::PrimitiveArray>::new args=buffer,ptype,validity errs=1
PrimitiveArray(TypedArray(Data(ArrayData(ENCODING, Primitive(ptype, nullability(validity)), len(align_to(buffer@*).1), PrimitiveMetadata(to_metadata(validity, len(align_to(buffer@*).1))), buffer, validity, RwLock.new(StatsSet(HashMap.new())))), OnceLock.new()))
@ <vortex::array::primitive::PrimitiveArray>::try_from_parts args=dtype,len,metadata,children,stats errs=1
PrimitiveArray(TypedArray(Data(ArrayData(ENCODING, dtype, len, metadata, None, children, RwLock.new(stats))), OnceLock.new()))
@ <vortex::array::sparse::SparseArray>::try_from_parts args=dtype,len,metadata,children,stats errs=1
SparseArray(TypedArray(Data(ArrayData(ENCODING, dtype, len, metadata, None, children, RwLock.new(stats))), OnceLock.new()))
@ <vortex::array::sparse::SparseArray>::try_new args=indices,values,len,fill_value errs=1
SparseArray.try_new_with_offset(indices, values, len, 0, fill_value)
@ <vortex::array::sparse::SparseArray>::try_new_with_offset args=indices,values,len,indices_offset,fill_value errs=1
SparseArray.try_from_parts(dtype(values), len, SparseMetadata(indices_offset, len(indices), fill_value), [indices, values], StatsSet(HashMap.new())) <- Eq(0, len(indices)) & Eq(len(indices), len(values)) & dtype(indices) is Primitive & dtype(indices)@Primitive.0 is U64 & dtype(indices)@Primitive.1 is NonNullable
SparseArray.try_from_parts(dtype(values), len, SparseMetadata(indices_offset, len(indices), fill_value), [indices, values], StatsSet(HashMap.new())) <- Eq(len(indices), len(values)) & Lt([TryFrom.try_from(scalar_at(indices, [len(indices) - 1])) - indices_offset], len) & dtype(indices) is Primitive & dtype(indices)@Primitive.0 is U64 & dtype(indices)@Primitive.1 is NonNullable
@ <vortex::array::struct_::StructArray>::from_fields args=items errs=1
StructArray.try_new(each(elem(items).0), each(elem(items).1), len(first(each(elem(items).1))), NonNullable)
@ <vortex::array::struct_::StructArray>::try_from_parts args=dtype,len,metadata,children,stats errs=1
StructArray(TypedArray(Data(ArrayData(ENCODING, dtype, len, metadata, None, children, RwLock.new(stats))), OnceLock.new()))
@ <vortex::array::struct_::StructArray>::try_new args=names,fields,length,validity errs=1
StructArray.try_from_parts(Struct(StructDType(names, each(dtype(elem(fields)))), nullability(validity)), length, StructMetadata(to_metadata(validity, length)), or(Vec.with_capacity().extend(fields).push(validity), Vec.with_capacity().extend(fields)), StatsSet(HashMap.new())) <- Eq(len(fields), len(names)) & next(fields) is None
@ <vortex::array::varbin::VarBinArray>::from_vec args=vec,dtype errs=1
VarBinArray.from_vec_sized(vec, dtype)
@ <vortex::array::varbin::VarBinArray>::try_from_parts args=dtype,len,metadata,children,stats errs=1
VarBinArray(TypedArray(Data(ArrayData(ENCODING, dtype, len, metadata, None, children, RwLock.new(stats))), OnceLock.new()))
@ <vortex::array::varbin::VarBinArray>::try_new args=offsets,bytes,dtype,validity errs=1
VarBinArray.try_from_parts(dtype, [len(offsets) - 1], VarBinMetadata(to_metadata(validity, [len(offsets) - 1]), TryFrom.try_from(dtype(offsets)), len(bytes)), or(Vec.with_capacity().push(offsets).push(bytes).push(validity), Vec.with_capacity().push(offsets).push(bytes)), StatsSet(HashMap.new())) <- !Eq(nullability(dtype) is Nullable, validity is NonNullable) & Eq(True, {False <- TryFrom.try_from(dtype(offsets)) is F16|F32|F64 | True <- TryFrom.try_from(dtype(offsets)) is I16|I32|I64|I8|U16|U32|U64|U8}) & dtype is Binary|Utf8 & dtype(bytes) is Primitive & dtype(bytes)@Primitive.0 is U8 & dtype(bytes)@Primitive.1 is NonNullable & nullability(dtype(offsets)) is NonNullable
@ <vortex::array::varbinview::VarBinViewArray>::from_iter args=iter,dtype errs=1
TryFrom.try_from(GenericByteViewArray.from_arrow(finish(loop{GenericByteViewBuilder.new() | each(elem(iter)) | loop.append_null()}), dtype@Binary.0 is Nullable)) <- dtype is Binary
TryFrom.try_from(GenericByteViewArray.from_arrow(finish(loop{GenericByteViewBuilder.new() | each(from_utf8_unchecked(elem(iter))) | loop.append_null()}), dtype@Utf8.0 is Nullable)) <- dtype is Utf8
@ <vortex::array::varbinview::VarBinViewArray>::from_iter_bin args=iter errs=1
TryFrom.try_from(GenericByteViewArray.from_arrow(finish(loop{GenericByteViewBuilder.with_capacity() | each(elem(iter))}), False))
@ <vortex::array::varbinview::VarBinViewArray>::from_iter_nullable_bin args=iter errs=1
TryFrom.try_from(GenericByteViewArray.from_arrow(finish(GenericByteViewBuilder.with_capacity().extend(iter)), True))
@ <vortex::array::varbinview::VarBinViewArray>::from_iter_nullable_str args=iter errs=1
TryFrom.try_from(GenericByteViewArray.from_arrow(finish(GenericByteViewBuilder.with_capacity().extend(iter)), True))
@ <vortex::array::varbinview::VarBinViewArray>::from_iter_str args=iter errs=1
TryFrom.try_from(GenericByteViewArray.from_arrow(finish(loop{GenericByteViewBuilder.with_capacity() | each(elem(iter))}), False))
@ <vortex::array::varbinview::VarBinViewArray>::try_from_parts args=dtype,len,metadata,children,stats errs=1
VarBinViewArray(TypedArray(Data(ArrayData(ENCODING, dtype, len, metadata, None, children, RwLock.new(stats))), OnceLock.new()))
@ <vortex::array::varbinview::VarBinViewArray>::try_new args=views,buffers,dtype,validity errs=1
VarBinViewArray.try_from_parts(dtype, div(len(views), 16), VarBinViewMetadata(to_metadata(validity, div(len(views), 16)), each(TryFrom.try_from(len(elem(buffers))))), or(Vec.with_capacity().push(views).extend(buffers).push(validity), Vec.with_capacity().push(views).extend(buffers)), StatsSet(HashMap.new())) <- !Eq(nullability(dtype) is Nullable, validity is NonNullable) & dtype is Binary|Utf8 & dtype(views) is Primitive & dtype(views)@Primitive.0 is U8 & dtype(views)@Primitive.1 is NonNullable & next(buffers) is None
@ <vortex::data::ArrayData>::try_new args=encoding,dtype,len,metadata,buffer,children,statistics errs=1
ArrayData(encoding, dtype, len, metadata, buffer, children, RwLock.new(statistics))
@ <vortex::typed::TypedArray<D>>::try_from_parts args=dtype,len,metadata,buffer,children,stats errs=1
TypedArray(Data(ArrayData(ENCODING, dtype, len, metadata, buffer, children, RwLock.new(stats))), OnceLock.new())
@ <vortex::view::ArrayView>::try_new args=ctx,dtype,len,flatbuffer,flatbuffer_init,buffers errs=1
ArrayView(get(ctx.encodings, get(icall(flatbuffer_init, flatbuffer@*)._tab, 8, 0)), dtype, len, flatbuffer, loc(icall(flatbuffer_init, flatbuffer@*)._tab), buffers, ctx)
@ <vortex_alp::alp::array::ALPArray>::try_from_parts args=dtype,len,metadata,children,stats errs=1
ALPArray(TypedArray(Data(ArrayData(ENCODING, dtype, len, metadata, None, children, RwLock.new(stats))), OnceLock.new()))
@ <vortex_alp::alp::array::ALPArray>::try_new args=encoded,exponents,patches errs=1
ALPArray.try_from_parts({Primitive(F32, dtype(encoded)@Primitive.1) <- dtype(encoded)@Primitive.0 is I32 | Primitive(F64, dtype(encoded)@Primitive.1) <- dtype(encoded)@Primitive.0 is I64}, len(encoded), ALPMetadata(exponents), or(Vec.with_capacity().push(encoded).push(patches), Vec.with_capacity().push(encoded)), default(vortex::stats::statsset::StatsSet)) <- Eq(len(encoded), len(patches)) & dtype(encoded) is Primitive & dtype(encoded)@Primitive.0 is I32|I64 & eq_ignore_nullability(dtype(patches), {Primitive(F32, dtype(encoded)@Primitive.1) <- dtype(encoded)@Primitive.0 is I32 | Primitive(F64, dtype(encoded)@Primitive.1) <- dtype(encoded)@Primitive.0 is I64}) & nullability(dtype(patches)) is Nullable
ALPArray.try_from_parts({Primitive(F32, dtype(encoded)@Primitive.1) <- dtype(encoded)@Primitive.0 is I32 | Primitive(F64, dtype(encoded)@Primitive.1) <- dtype(encoded)@Primitive.0 is I64}, len(encoded), ALPMetadata(exponents), or(Vec.with_capacity().push(encoded).push(patches), Vec.with_capacity().push(encoded)), default(vortex::stats::statsset::StatsSet)) <- dtype(encoded) is Primitive & dtype(encoded)@Primitive.0 is I32|I64 & patches is None
@ <vortex_alp::alp_rd::array::ALPRDArray>::try_from_parts args=dtype,len,metadata,children,stats errs=1
ALPRDArray(TypedArray(Data(ArrayData(ENCODING, dtype, len, metadata, None, children, RwLock.new(stats))), OnceLock.new()))
@ <vortex_alp::alp_rd::array::ALPRDArray>::try_new args=dtype,left_parts,left_parts_dict,right_parts,right_bit_width,left_parts_exceptions errs=1
ALPRDArray.try_from_parts(dtype, len(left_parts), ALPRDMetadata(right_bit_width, as_u8(len(left_parts_dict)), loop{rep(0, 8) | seti(loop, pos(left_parts_dict), elem(left_parts_dict))}, TryFrom.try_from(dtype(left_parts)), isSome(left_parts_exceptions)), or([left_parts, right_parts].push(left_parts_exceptions), [left_parts, right_parts]), StatsSet(HashMap.new())) <- Eq(8, id({left_parts_exceptions@Data.0.encoding <- left_parts_exceptions is Data | left_parts_exceptions@View.0.encoding <- left_parts_exceptions is View}).1) & Eq(True, TryFrom.try_from(dtype(left_parts)) is U16|U32|U64|U8) & Eq(True, TryFrom.try_from(dtype(right_parts)) is U16|U32|U64|U8) & Eq(True, TryFrom.try_from(dtype) is F16|F32|F64) & Eq(len(left_parts), len(right_parts)) & Eq(nullability(dtype(left_parts)) is Nullable, nullability(dtype) is Nullable) & nullability(dtype(right_parts)) is NonNullable
ALPRDArray.try_from_parts(dtype, len(left_parts), ALPRDMetadata(right_bit_width, as_u8(len(left_parts_dict)), loop{rep(0, 8) | seti(loop, pos(left_parts_dict), elem(left_parts_dict))}, TryFrom.try_from(dtype(left_parts)), isSome(left_parts_exceptions)), or([left_parts, right_parts].push(left_parts_exceptions), [left_parts, right_parts]), StatsSet(HashMap.new())) <- Eq(True, TryFrom.try_from(dtype(left_parts)) is U16|U32|U64|U8) & Eq(True, TryFrom.try_from(dtype(right_parts)) is U16|U32|U64|U8) & Eq(True, TryFrom.try_from(dtype) is F16|F32|F64) & Eq(len(left_parts), len(right_parts)) & Eq(nullability(dtype(left_parts)) is Nullable, nullability(dtype) is Nullable) & left_parts_exceptions is None & nullability(dtype(right_parts)) is NonNullable
@ <vortex_bytebool::array::ByteBoolArray>::try_from_parts args=dtype,len,metadata,children,stats errs=1
ByteBoolArray(TypedArray(Data(ArrayData(ENCODING, dtype, len, metadata, None, children, RwLock.new(stats))), OnceLock.new()))
@ <vortex_bytebool::array::ByteBoolArray>::try_from_vec args=data,validity errs=1
ByteBoolArray.try_new(Arrow(Buffer.from_vec(Vec.from_raw_parts(as_mut_ptr(data.shrink_to_fit()), len(data.shrink_to_fit().as_mut_ptr()), capacity(data.shrink_to_fit().as_mut_ptr())))), validity)
@ <vortex_bytebool::array::ByteBoolArray>::try_new args=buffer,validity errs=1
ByteBoolArray(TypedArray(Data(ArrayData(ENCODING, Bool(nullability(validity)), len(buffer), ByteBoolMetadata(to_metadata(validity, len(buffer))), buffer, validity, RwLock.new(StatsSet(HashMap.new())))), OnceLock.new()))
@ <vortex_datetime_parts::array::DateTimePartsArray>::try_from_parts args=dtype,len,metadata,children,stats errs=1
DateTimePartsArray(TypedArray(Data(ArrayData(ENCODING, dtype, len, metadata, None, children, RwLock.new(stats))), OnceLock.new()))
@ <vortex_datetime_parts::array::DateTimePartsArray>::try_new args=dtype,days,seconds,subsecond errs=1
DateTimePartsArray.try_from_parts(dtype, len(days), DateTimePartsMetadata(TryFrom.try_from(dtype(days)), TryFrom.try_from(dtype(seconds)), TryFrom.try_from(dtype(subsecond))), [days, seconds, subsecond], StatsSet(HashMap.new())) <- Eq(True, {False <- TryFrom.try_from(dtype(days)) is F16|F32|F64 | True <- TryFrom.try_from(dtype(days)) is I16|I32|I64|I8|U16|U32|U64|U8}) & Eq(True, {False <- TryFrom.try_from(dtype(seconds)) is F16|F32|F64 | True <- TryFrom.try_from(dtype(seconds)) is I16|I32|I64|I8|U16|U32|U64|U8}) & Eq(True, {False <- TryFrom.try_from(dtype(subsecond)) is F16|F32|F64 | True <- TryFrom.try_from(dtype(subsecond)) is I16|I32|I64|I8|U16|U32|U64|U8}) & Eq(len(days), len(seconds)) & Eq(len(days), len(subsecond)) & Eq(nullability(dtype(days)) is Nullable, nullability(dtype) is Nullable) & nullability(dtype(seconds)) is NonNullable & nullability(dtype(subsecond)) is NonNullable
@ <vortex_dict::array::DictArray>::try_from_parts args=dtype,len,metadata,children,stats errs=1
DictArray(TypedArray(Data(ArrayData(ENCODING, dtype, len, metadata, None, children, RwLock.new(stats))), OnceLock.new()))
@ <vortex_dict::array::DictArray>::try_new args=codes,values errs=1
DictArray.try_from_parts(dtype(values), len(codes), DictMetadata(TryFrom.try_from(dtype(codes)), len(values)), [values, codes], StatsSet(HashMap.new())) <- Eq(True, TryFrom.try_from(dtype(codes)) is U16|U32|U64|U8) & nullability(dtype(codes)) is NonNullable
@ <vortex_fastlanes::bitpacking::BitPackedArray>::try_from_parts args=dtype,len,metadata,children,stats errs=1
BitPackedArray(TypedArray(Data(ArrayData(ENCODING, dtype, len, metadata, None, children, RwLock.new(stats))), OnceLock.new()))
@ <vortex_fastlanes::bitpacking::BitPackedArray>::try_new args=packed,ptype,validity,patches,bit_width,len errs=1
BitPackedArray.try_new_from_offset(packed, ptype, validity, patches, bit_width, len, 0)
@ <vortex_fastlanes::bitpacking::BitPackedArray>::try_new_from_offset args=packed,ptype,validity,patches,bit_width,length,offset errs=1
BitPackedArray(TypedArray(Data(ArrayData(ENCODING, Primitive(ptype, nullability(validity)), length, BitPackedMetadata(to_metadata(validity, length), bit_width, offset, isSome(patches)), packed, or(or(Vec.with_capacity().push(patches), Vec.with_capacity()).push(validity), or(Vec.with_capacity().push(patches), Vec.with_capacity())), RwLock.new(StatsSet(HashMap.new())))), OnceLock.new())) <- !Eq(0, len(child(TryFrom.try_from(patches), 0, Primitive(U64, NonNullable), indices_len(TryFrom.try_from(patches))))) & !Lt(1023, offset) & !Lt(64, bit_width) & Eq(True, TryFrom.try_from(Primitive(ptype, nullability(validity))) is U16|U32|U64|U8) & Eq([128*bit_width*div([length + offset + 1023], 1024)], len(packed)) & Eq(len(patches), length)
BitPackedArray(TypedArray(Data(ArrayData(ENCODING, Primitive(ptype, nullability(validity)), length, BitPackedMetadata(to_metadata(validity, length), bit_width, offset, isSome(patches)), packed, or(or(Vec.with_capacity().push(patches), Vec.with_capacity()).push(validity), or(Vec.with_capacity().push(patches), Vec.with_capacity())), RwLock.new(StatsSet(HashMap.new())))), OnceLock.new())) <- !Lt(1023, offset) & !Lt(64, bit_width) & Eq(True, TryFrom.try_from(Primitive(ptype, nullability(validity))) is U16|U32|U64|U8) & Eq([128*bit_width*div([length + offset + 1023], 1024)], len(packed)) & patches is None
@ <vortex_fastlanes::delta::DeltaArray>::try_from_parts args=dtype,len,metadata,children,stats errs=1
DeltaArray(TypedArray(Data(ArrayData(ENCODING, dtype, len, metadata, None, children, RwLock.new(stats))), OnceLock.new()))
@ <vortex_fastlanes::delta::DeltaArray>::try_new args=bases,deltas,validity,offset,logical_len errs=1
DeltaArray.try_from_parts(dtype(bases), logical_len, DeltaMetadata(to_metadata(validity, logical_len), len(deltas), as_u16(offset)), or([bases, deltas].push(validity), [bases, deltas]), StatsSet(HashMap.new())) <- !Lt(1023, offset) & !Lt(len(deltas), [logical_len + offset]) & Eq(Eq(0, rem(bases_len(DeltaArray.try_from_parts(dtype(bases), logical_len, DeltaMetadata(to_metadata(validity, logical_len), len(deltas), as_u16(offset)), or([bases, deltas].push(validity), [bases, deltas]), StatsSet(HashMap.new()))), lanes(DeltaArray.try_from_parts(dtype(bases), logical_len, DeltaMetadata(to_metadata(validity, logical_len), len(deltas), as_u16(offset)), or([bases, deltas].push(validity), [bases, deltas]), StatsSet(HashMap.new()))))), Eq(0, rem(deltas_len(DeltaArray.try_from_parts(dtype(bases), logical_len, DeltaMetadata(to_metadata(validity, logical_len), len(deltas), as_u16(offset)), or([bases, deltas].push(validity), [bases, deltas]), StatsSet(HashMap.new()))), 1024))) & Eq(bases_len(DeltaArray.try_from_parts(dtype(bases), logical_len, DeltaMetadata(to_metadata(validity, logical_len), len(deltas), as_u16(offset)), or([bases, deltas].push(validity), [bases, deltas]), StatsSet(HashMap.new()))), len(bases(DeltaArray.try_from_parts(dtype(bases), logical_len, DeltaMetadata(to_metadata(validity, logical_len), len(deltas), as_u16(offset)), or([bases, deltas].push(validity), [bases, deltas]), StatsSet(HashMap.new()))))) & Eq(dtype(bases), dtype(deltas))
@ <vortex_fastlanes::for::FoRArray>::try_from_parts args=dtype,len,metadata,children,stats errs=1
FoRArray(TypedArray(Data(ArrayData(ENCODING, dtype, len, metadata, None, children, RwLock.new(stats))), OnceLock.new()))
@ <vortex_fsst::array::FSSTArray>::try_from_parts args=dtype,len,metadata,children,stats errs=1
FSSTArray(TypedArray(Data(ArrayData(ENCODING, dtype, len, metadata, None, children, RwLock.new(stats))), OnceLock.new()))
@ <vortex_fsst::array::FSSTArray>::try_new args=dtype,symbols,symbol_lengths,codes,uncompressed_lengths errs=1
FSSTArray.try_from_parts(dtype, len(codes), FSSTMetadata(len(symbols), nullability(dtype(codes)), TryFrom.try_from(dtype(uncompressed_lengths))), [symbols, symbol_lengths, codes, uncompressed_lengths], StatsSet(HashMap.new())) <- !Lt(255, len(symbols)) & Eq(('#', ('static', 'vortex_fsst::array::SYMBOLS_DTYPE')), dtype(symbols)) & Eq(('#', ('static', 'vortex_fsst::array::SYMBOL_LENS_DTYPE')), dtype(symbol_lengths)) & Eq(EncodingId('vortex.varbin', 5), id({codes@Data.0.encoding <- codes is Data | codes@View.0.encoding <- codes is View})) & Eq(True, {False <- TryFrom.try_from(dtype(uncompressed_lengths)) is F16|F32|F64 | True <- TryFrom.try_from(dtype(uncompressed_lengths)) is I16|I32|I64|I8|U16|U32|U64|U8}) & Eq(len(codes), len(uncompressed_lengths)) & Eq(len(symbol_lengths), len(symbols)) & dtype(codes) is Binary & nullability(dtype(uncompressed_lengths)) is NonNullable
@ <vortex_roaring::boolean::RoaringBoolArray>::try_from_parts args=dtype,len,metadata,children,stats errs=1
RoaringBoolArray(TypedArray(Data(ArrayData(ENCODING, dtype, len, metadata, None, children, RwLock.new(stats))), OnceLock.new()))
@ <vortex_roaring::integer::RoaringIntArray>::try_from_parts args=dtype,len,metadata,children,stats errs=1
RoaringIntArray(TypedArray(Data(ArrayData(ENCODING, dtype, len, metadata, None, children, RwLock.new(stats))), OnceLock.new()))
@ <vortex_roaring::integer::RoaringIntArray>::try_new args=bitmap,ptype errs=1
RoaringIntArray(TypedArray(Data(ArrayData(ENCODING, Primitive(ptype, NonNullable), statistics(bitmap).cardinality, RoaringIntMetadata(ptype), Arrow(Buffer.from_vec(serialize(bitmap))), Vec.new(), RwLock.new(StatsSet(HashMap.new())))), OnceLock.new())) <- !Eq(Lt({18446744073709551615 <- ptype is U64 | 255 <- ptype is U8 | 4294967295 <- ptype is U32 | 65535 <- ptype is U16}, maximum(bitmap)), True) & ptype is U16|U32|U64|U8
@ <vortex_runend::array::RunEndArray>::try_from_parts args=dtype,len,metadata,children,stats errs=1
RunEndArray(TypedArray(Data(ArrayData(ENCODING, dtype, len, metadata, None, children, RwLock.new(stats))), OnceLock.new()))
@ <vortex_runend::array::RunEndArray>::try_new args=ends,values,validity errs=1
RunEndArray.with_offset_and_length(ends, values, validity, 0, {0 <- Eq(0, len(ends)) | TryFrom.try_from(scalar_at(ends, [len(ends) - 1])) <- !Eq(0, len(ends))})
@ <vortex_runend::array::RunEndArray>::with_offset_and_length args=ends,values,validity,offset,length errs=1
RunEndArray.try_from_parts(dtype(values), length, RunEndMetadata(to_metadata(validity, length), TryFrom.try_from(dtype(ends)), len(ends), offset), or(Vec.with_capacity().push(ends).push(values).push(validity), Vec.with_capacity().push(ends).push(values)), StatsSet(HashMap.new())) <- !Eq(False, TryFrom.try_from(compute(ends@*, IsStrictSorted))) & Eq(0, len(ends)) & Eq(True, TryFrom.try_from(dtype(ends)) is U16|U32|U64|U8) & Eq(nullability(dtype(values)), nullability(validity)) & nullability(dtype(ends)) is NonNullable
RunEndArray.try_from_parts(dtype(values), length, RunEndMetadata(to_metadata(validity, length), TryFrom.try_from(dtype(ends)), len(ends), offset), or(Vec.with_capacity().push(ends).push(values).push(validity), Vec.with_capacity().push(ends).push(values)), StatsSet(HashMap.new())) <- !Eq(False, TryFrom.try_from(compute(ends@*, IsStrictSorted))) & Eq(0, offset) & Eq(True, TryFrom.try_from(dtype(ends)) is U16|U32|U64|U8) & Eq(nullability(dtype(values)), nullability(validity)) & nullability(dtype(ends)) is NonNullable
RunEndArray.try_from_parts(dtype(values), length, RunEndMetadata(to_metadata(validity, length), TryFrom.try_from(dtype(ends)), len(ends), offset), or(Vec.with_capacity().push(ends).push(values).push(validity), Vec.with_capacity().push(ends).push(values)), StatsSet(HashMap.new())) <- !Eq(False, TryFrom.try_from(compute(ends@*, IsStrictSorted))) & Eq(True, TryFrom.try_from(dtype(ends)) is U16|U32|U64|U8) & Eq(nullability(dtype(values)), nullability(validity)) & Lt(offset, TryFrom.try_from(scalar_at(ends, 0))) & nullability(dtype(ends)) is NonNullable
@ <vortex_runend_bool::array::RunEndBoolArray>::try_from_parts args=dtype,len,metadata,children,stats errs=1
RunEndBoolArray(TypedArray(Data(ArrayData(ENCODING, dtype, len, metadata, None, children, RwLock.new(stats))), OnceLock.new()))
@ <vortex_runend_bool::array::RunEndBoolArray>::try_new args=ends,start,validity errs=1
RunEndBoolArray.with_offset_and_size(ends, start, validity, TryFrom.try_from(scalar_at(ends, [len(ends) - 1])), 0)
@ <vortex_runend_bool::array::RunEndBoolArray>::with_offset_and_size args=ends,start,validity,length,offset errs=1
RunEndBoolArray.try_from_parts(Bool(nullability(validity)), length, RunEndBoolMetadata(start, to_metadata(validity, length), TryFrom.try_from(dtype(ends)), len(ends), offset), or(Vec.with_capacity().push(ends).push(validity), Vec.with_capacity().push(ends)), StatsSet(HashMap.new())) <- !Eq(0, len(ends)) & !Eq(False, TryFrom.try_from(compute(ends@*, IsStrictSorted))) & Eq(True, TryFrom.try_from(dtype(ends)) is U16|U32|U64|U8) & nullability(dtype(ends)) is NonNullable
@ <vortex_zigzag::array::ZigZagArray>::try_from_parts args=dtype,len,metadata,children,stats errs=1
ZigZagArray(TypedArray(Data(ArrayData(ENCODING, dtype, len, metadata, None, children, RwLock.new(stats))), OnceLock.new()))
@ <vortex_zigzag::array::ZigZagArray>::try_new args=encoded errs=1
ZigZagArray.try_from_parts(Primitive({I16 <- TryFrom.try_from(dtype(encoded)) is U16 | I32 <- TryFrom.try_from(dtype(encoded)) is U32 | I64 <- TryFrom.try_from(dtype(encoded)) is U64 | I8 <- TryFrom.try_from(dtype(encoded)) is U8 | TryFrom.try_from(dtype(encoded)) <- TryFrom.try_from(dtype(encoded)) is F16|F32|F64|I16|I32|I64|I8}, nullability(dtype(encoded))), len(encoded), ZigZagMetadata, [encoded], StatsSet(HashMap.new())) <- Eq(True, TryFrom.try_from(dtype(encoded)) is U16|U32|U64|U8)
'''
READ = r'''
@ <vortex::Array>::as_primitive args=self errs=1
TryFrom.try_from(self)
@ <vortex::Array>::buffer args=self errs=1
index(self@View.0.buffers, get(Table.new(self@View.0.flatbuffer@*, self@View.0.flatbuffer_loc), 6, None)) <- self is View
self@Data.0.buffer <- self is Data
@ <vortex::Array>::child args=self,idx,dtype,len errs=1
View(child(self@View.0, idx, dtype, len)) <- self is View
child(self@Data.0, idx, dtype, len) <- self is Data
@ <vortex::Array>::children args=self errs=1
default(vortex::view::ChildrenCollector).accept(View(self@View.0)).children <- self is View
self@Data.0.children <- self is Data
@ <vortex::Array>::cumulative_nbuffers args=self errs=1
[sum(each(cumulative_nbuffers(elem({default(vortex::view::ChildrenCollector).accept(View(self@View.0)).children <- self is View | self@Data.0.children <- self is Data})))) + {0 | 1}]
@ <vortex::Array>::encoding args=self errs=1
self@Data.0.encoding <- self is Data
self@View.0.encoding <- self is View
@ <vortex::Array>::into_buffer args=self errs=1
index(self@View.0.buffers, get(Table.new(self@View.0.flatbuffer@*, self@View.0.flatbuffer_loc), 6, None)) <- self is View
self@Data.0.buffer <- self is Data
@ <vortex::Array>::is_encoding args=self,id errs=1
Eq(id, id({self@Data.0.encoding <- self is Data | self@View.0.encoding <- self is View}))
@ <vortex::Array>::nbytes args=self errs=1
nbytes(self)
@ <vortex::Array>::nchildren args=self errs=1
len(self@Data.0.children) <- self is Data
or(len(get(Table.new(self@View.0.flatbuffer@*, self@View.0.flatbuffer_loc), 14, None)), 0) <- self is View
@ <vortex::array::bool::BoolArray as vortex::variants::ArrayVariants>::as_bool_array args=self errs=1
self
@ <vortex::array::bool::BoolArray>::boolean_buffer args=self errs=1
BooleanBuffer.new(into_arrow(buffer(self)), first_byte_bit_offset(self), len(self))
@ <vortex::array::bool::BoolArray>::buffer args=self errs=1
buffer(self)
@ <vortex::array::bool::BoolArray>::validity args=self errs=1
Array(child(self, 0, Bool(NonNullable), len(self))) <- validity(self) is Array
validity(self) <- validity(self) is AllInvalid|AllValid|NonNullable
@ <vortex::array::chunked::ChunkedArray as vortex::variants::ArrayVariants>::as_binary_array args=self errs=1
None <- dtype(self) is Bool|Extension|List|Null|Primitive|Struct|Utf8
self <- dtype(self) is Binary
@ <vortex::array::chunked::ChunkedArray as vortex::variants::ArrayVariants>::as_bool_array args=self errs=1
None <- dtype(self) is Binary|Extension|List|Null|Primitive|Struct|Utf8
self <- dtype(self) is Bool
@ <vortex::array::chunked::ChunkedArray as vortex::variants::ArrayVariants>::as_extension_array args=self errs=1
None <- dtype(self) is Binary|Bool|List|Null|Primitive|Struct|Utf8
self <- dtype(self) is Extension
@ <vortex::array::chunked::ChunkedArray as vortex::variants::ArrayVariants>::as_list_array args=self errs=1
None <- dtype(self) is Binary|Bool|Extension|Null|Primitive|Struct|Utf8
self <- dtype(self) is List
@ <vortex::array::chunked::ChunkedArray as vortex::variants::ArrayVariants>::as_null_array args=self errs=1
None <- dtype(self) is Binary|Bool|Extension|List|Primitive|Struct|Utf8
self <- dtype(self) is Null
@ <vortex::array::chunked::ChunkedArray as vortex::variants::ArrayVariants>::as_primitive_array args=self errs=1
None <- dtype(self) is Binary|Bool|Extension|List|Null|Struct|Utf8
self <- dtype(self) is Primitive
@ <vortex::array::chunked::ChunkedArray as vortex::variants::ArrayVariants>::as_struct_array args=self errs=1
None <- dtype(self) is Binary|Bool|Extension|List|Null|Primitive|Utf8
self <- dtype(self) is Struct
@ <vortex::array::chunked::ChunkedArray as vortex::variants::ArrayVariants>::as_utf8_array args=self errs=1
None <- dtype(self) is Binary|Bool|Extension|List|Null|Primitive|Struct
self <- dtype(self) is Utf8
@ <vortex::array::chunked::ChunkedArray as vortex::variants::ExtensionArrayTrait>::storage_array args=self errs=1
ChunkedArray.try_new(each(storage_array(as_extension_array_unchecked(elem(chunks(self))))), dtype(first(each(storage_array(as_extension_array_unchecked(elem(chunks(self))))))))
@ <vortex::array::chunked::ChunkedArray as vortex::variants::StructArrayTrait>::field args=self,idx errs=1
ChunkedArray.try_new(each(field(as_struct_array(elem(chunks(self))), idx)), index(dtype(self)@Struct.0.dtypes, idx)) <- next(chunks(self)) is None
None
@ <vortex::array::chunked::ChunkedArray as vortex::variants::StructArrayTrait>::project args=self,projection errs=1
ChunkedArray.try_new(each(project(as_struct_array(elem(chunks(self))), projection)), Struct(project(dtype(self)@Struct.0, projection), nullability(dtype(self)))) <- dtype(self) is Struct & next(chunks(self)) is None
@ <vortex::array::chunked::ChunkedArray>::ENDS_DTYPE errs=1
Primitive(U64, NonNullable)
@ <vortex::array::chunked::ChunkedArray>::chunks args=self errs=1
each(chunk(self, elem(0..nchunks(self))))
@ <vortex::array::chunked::ChunkedArray>::nchunks args=self errs=1
nchunks(self)
@ <vortex::array::constant::ConstantArray as vortex::variants::ArrayVariants>::as_binary_array args=self errs=1
None <- dtype(self) is Bool|Extension|List|Null|Primitive|Struct|Utf8
self <- dtype(self) is Binary
@ <vortex::array::constant::ConstantArray as vortex::variants::ArrayVariants>::as_bool_array args=self errs=1
None <- dtype(self) is Binary|Extension|List|Null|Primitive|Struct|Utf8
self <- dtype(self) is Bool
@ <vortex::array::constant::ConstantArray as vortex::variants::ArrayVariants>::as_extension_array args=self errs=1
None <- dtype(self) is Binary|Bool|List|Null|Primitive|Struct|Utf8
self <- dtype(self) is Extension
@ <vortex::array::constant::ConstantArray as vortex::variants::ArrayVariants>::as_list_array args=self errs=1
None <- dtype(self) is Binary|Bool|Extension|Null|Primitive|Struct|Utf8
self <- dtype(self) is List
@ <vortex::array::constant::ConstantArray as vortex::variants::ArrayVariants>::as_null_array args=self errs=1
None <- dtype(self) is Binary|Bool|Extension|List|Primitive|Struct|Utf8
self <- dtype(self) is Null
@ <vortex::array::constant::ConstantArray as vortex::variants::ArrayVariants>::as_primitive_array args=self errs=1
None <- dtype(self) is Binary|Bool|Extension|List|Null|Struct|Utf8
self <- dtype(self) is Primitive
@ <vortex::array::constant::ConstantArray as vortex::variants::ArrayVariants>::as_struct_array args=self errs=1
None <- dtype(self) is Binary|Bool|Extension|List|Null|Primitive|Utf8
self <- dtype(self) is Struct
@ <vortex::array::constant::ConstantArray as vortex::variants::ArrayVariants>::as_utf8_array args=self errs=1
None <- dtype(self) is Binary|Bool|Extension|List|Null|Primitive|Struct
self <- dtype(self) is Utf8
@ <vortex::array::constant::ConstantArray as vortex::variants::BoolArrayTrait>::invert args=self errs=1
or(ConstantArray.new(!as_bool(scalar_value(self)), len(self)), self)
@ <vortex::array::constant::ConstantArray as vortex::variants::ExtensionArrayTrait>::storage_array args=self errs=1
ConstantArray.new(Scalar({Binary(nullability(dtype(self))) <- scalar_value(self) is Buffer | Bool(nullability(dtype(self))) <- scalar_value(self) is Bool | Primitive(ptype(scalar_value(self)@Primitive.0), nullability(dtype(self))) <- scalar_value(self) is Primitive | Utf8(nullability(dtype(self))) <- scalar_value(self) is BufferString | scalar_value(self) <- scalar_value(self) is Null}, scalar_value(self)), len(self))
@ <vortex::array::constant::ConstantArray as vortex::variants::PrimitiveArrayTrait>::f16_accessor args=self errs=1
None <- dtype(self) is Binary|Bool|Extension|List|Null|Struct|Utf8
None <- dtype(self)@Primitive.0 is F32|F64|I16|I32|I64|I8|U16|U32|U64|U8
self <- dtype(self) is Primitive & dtype(self)@Primitive.0 is F16
@ <vortex::array::constant::ConstantArray as vortex::variants::PrimitiveArrayTrait>::f32_accessor args=self errs=1
None <- dtype(self) is Binary|Bool|Extension|List|Null|Struct|Utf8
None <- dtype(self)@Primitive.0 is F16|F64|I16|I32|I64|I8|U16|U32|U64|U8
self <- dtype(self) is Primitive & dtype(self)@Primitive.0 is F32
@ <vortex::array::constant::ConstantArray as vortex::variants::PrimitiveArrayTrait>::f64_accessor args=self errs=1
None <- dtype(self) is Binary|Bool|Extension|List|Null|Struct|Utf8
None <- dtype(self)@Primitive.0 is F16|F32|I16|I32|I64|I8|U16|U32|U64|U8
self <- dtype(self) is Primitive & dtype(self)@Primitive.0 is F64
@ <vortex::array::constant::ConstantArray as vortex::variants::PrimitiveArrayTrait>::i16_accessor args=self errs=1
None <- dtype(self) is Binary|Bool|Extension|List|Null|Struct|Utf8
None <- dtype(self)@Primitive.0 is F16|F32|F64|I32|I64|I8|U16|U32|U64|U8
self <- dtype(self) is Primitive & dtype(self)@Primitive.0 is I16
@ <vortex::array::constant::ConstantArray as vortex::variants::PrimitiveArrayTrait>::i32_accessor args=self errs=1
None <- dtype(self) is Binary|Bool|Extension|List|Null|Struct|Utf8
None <- dtype(self)@Primitive.0 is F16|F32|F64|I16|I64|I8|U16|U32|U64|U8
self <- dtype(self) is Primitive & dtype(self)@Primitive.0 is I32
@ <vortex::array::constant::ConstantArray as vortex::variants::PrimitiveArrayTrait>::i64_accessor args=self errs=1
None <- dtype(self) is Binary|Bool|Extension|List|Null|Struct|Utf8
None <- dtype(self)@Primitive.0 is F16|F32|F64|I16|I32|I8|U16|U32|U64|U8
self <- dtype(self) is Primitive & dtype(self)@Primitive.0 is I64
@ <vortex::array::constant::ConstantArray as vortex::variants::PrimitiveArrayTrait>::i8_accessor args=self errs=1
None <- dtype(self) is Binary|Bool|Extension|List|Null|Struct|Utf8
None <- dtype(self)@Primitive.0 is F16|F32|F64|I16|I32|I64|U16|U32|U64|U8
self <- dtype(self) is Primitive & dtype(self)@Primitive.0 is I8
@ <vortex::array::constant::ConstantArray as vortex::variants::PrimitiveArrayTrait>::u16_accessor args=self errs=1
None <- dtype(self) is Binary|Bool|Extension|List|Null|Struct|Utf8
None <- dtype(self)@Primitive.0 is F16|F32|F64|I16|I32|I64|I8|U32|U64|U8
self <- dtype(self) is Primitive & dtype(self)@Primitive.0 is U16
@ <vortex::array::constant::ConstantArray as vortex::variants::PrimitiveArrayTrait>::u32_accessor args=self errs=1
None <- dtype(self) is Binary|Bool|Extension|List|Null|Struct|Utf8
None <- dtype(self)@Primitive.0 is F16|F32|F64|I16|I32|I64|I8|U16|U64|U8
self <- dtype(self) is Primitive & dtype(self)@Primitive.0 is U32
@ <vortex::array::constant::ConstantArray as vortex::variants::PrimitiveArrayTrait>::u64_accessor args=self errs=1
None <- dtype(self) is Binary|Bool|Extension|List|Null|Struct|Utf8
None <- dtype(self)@Primitive.0 is F16|F32|F64|I16|I32|I64|I8|U16|U32|U8
self <- dtype(self) is Primitive & dtype(self)@Primitive.0 is U64
@ <vortex::array::constant::ConstantArray as vortex::variants::PrimitiveArrayTrait>::u8_accessor args=self errs=1
None <- dtype(self) is Binary|Bool|Extension|List|Null|Struct|Utf8
None <- dtype(self)@Primitive.0 is F16|F32|F64|I16|I32|I64|I8|U16|U32|U64
self <- dtype(self) is Primitive & dtype(self)@Primitive.0 is U8
@ <vortex::array::constant::ConstantArray as vortex::variants::StructArrayTrait>::field args=self,idx voc=field_by_idx,project errs=1
ConstantArray.new(field_by_idx(StructScalar(dtype(self), optfilter(scalar_value(self)@List.0, scalar_value(self) is List)), idx), len(self)) <- dtype(self) is Struct
None
@ <vortex::array::constant::ConstantArray as vortex::variants::StructArrayTrait>::project args=self,projection voc=field_by_idx,project errs=1
ConstantArray.new(project(StructScalar(dtype(self), optfilter(scalar_value(self)@List.0, scalar_value(self) is List)), projection), len(self)) <- dtype(self) is Struct & scalar_value(self) is List|Null
@ <vortex::array::constant::ConstantArray>::scalar_value args=self errs=1
scalar_value(self)
@ <vortex::array::datetime::TemporalArray>::ext_dtype args=self errs=1
ext_dtype(self.ext)
@ <vortex::array::datetime::TemporalArray>::temporal_metadata args=self errs=1
self.temporal_metadata
@ <vortex::array::datetime::TemporalArray>::temporal_values args=self errs=1
child(self.ext, 0, storage_dtype(self.ext), len(self.ext))
@ <vortex::array::extension::ExtensionArray as vortex::variants::ArrayVariants>::as_extension_array args=self errs=1
self
@ <vortex::array::extension::ExtensionArray as vortex::variants::ExtensionArrayTrait>::storage_array args=self errs=1
storage(self)
@ <vortex::array::extension::ExtensionArray>::id args=self errs=1
id(dtype(self)@Extension.0)
@ <vortex::array::extension::ExtensionArray>::storage args=self errs=1
child(self, 0, storage_dtype(self), len(self))
@ <vortex::array::null::NullArray as vortex::ArrayTrait>::nbytes args=self errs=1
0
@ <vortex::array::null::NullArray as vortex::variants::ArrayVariants>::as_null_array args=self errs=1
self
@ <vortex::array::primitive::PrimitiveArray as vortex::variants::ArrayVariants>::as_primitive_array args=self errs=1
self
@ <vortex::array::primitive::PrimitiveArray as vortex::variants::PrimitiveArrayTrait>::f16_accessor args=self errs=1
None <- dtype(self) is Binary|Bool|Extension|List|Null|Struct|Utf8
None <- dtype(self)@Primitive.0 is F32|F64|I16|I32|I64|I8|U16|U32|U64|U8
self <- dtype(self) is Primitive & dtype(self)@Primitive.0 is F16
@ <vortex::array::primitive::PrimitiveArray as vortex::variants::PrimitiveArrayTrait>::f32_accessor args=self errs=1
None <- dtype(self) is Binary|Bool|Extension|List|Null|Struct|Utf8
None <- dtype(self)@Primitive.0 is F16|F64|I16|I32|I64|I8|U16|U32|U64|U8
self <- dtype(self) is Primitive & dtype(self)@Primitive.0 is F32
@ <vortex::array::primitive::PrimitiveArray as vortex::variants::PrimitiveArrayTrait>::f64_accessor args=self errs=1
None <- dtype(self) is Binary|Bool|Extension|List|Null|Struct|Utf8
None <- dtype(self)@Primitive.0 is F16|F32|I16|I32|I64|I8|U16|U32|U64|U8
self <- dtype(self) is Primitive & dtype(self)@Primitive.0 is F64
@ <vortex::array::primitive::PrimitiveArray as vortex::variants::PrimitiveArrayTrait>::i16_accessor args=self errs=1
None <- dtype(self) is Binary|Bool|Extension|List|Null|Struct|Utf8
None <- dtype(self)@Primitive.0 is F16|F32|F64|I32|I64|I8|U16|U32|U64|U8
self <- dtype(self) is Primitive & dtype(self)@Primitive.0 is I16
@ <vortex::array::primitive::PrimitiveArray as vortex::variants::PrimitiveArrayTrait>::i32_accessor args=self errs=1
None <- dtype(self) is Binary|Bool|Extension|List|Null|Struct|Utf8
None <- dtype(self)@Primitive.0 is F16|F32|F64|I16|I64|I8|U16|U32|U64|U8
self <- dtype(self) is Primitive & dtype(self)@Primitive.0 is I32
@ <vortex::array::primitive::PrimitiveArray as vortex::variants::PrimitiveArrayTrait>::i64_accessor args=self errs=1
None <- dtype(self) is Binary|Bool|Extension|List|Null|Struct|Utf8
None <- dtype(self)@Primitive.0 is F16|F32|F64|I16|I32|I8|U16|U32|U64|U8
self <- dtype(self) is Primitive & dtype(self)@Primitive.0 is I64
@ <vortex::array::primitive::PrimitiveArray as vortex::variants::PrimitiveArrayTrait>::i8_accessor args=self errs=1
None <- dtype(self) is Binary|Bool|Extension|List|Null|Struct|Utf8
None <- dtype(self)@Primitive.0 is F16|F32|F64|I16|I32|I64|U16|U32|U64|U8
self <- dtype(self) is Primitive & dtype(self)@Primitive.0 is I8
@ <vortex::array::primitive::PrimitiveArray as vortex::variants::PrimitiveArrayTrait>::u16_accessor args=self errs=1
None <- dtype(self) is Binary|Bool|Extension|List|Null|Struct|Utf8
None <- dtype(self)@Primitive.0 is F16|F32|F64|I16|I32|I64|I8|U32|U64|U8
self <- dtype(self) is Primitive & dtype(self)@Primitive.0 is U16
@ <vortex::array::primitive::PrimitiveArray as vortex::variants::PrimitiveArrayTrait>::u32_accessor args=self errs=1
None <- dtype(self) is Binary|Bool|Extension|List|Null|Struct|Utf8
None <- dtype(self)@Primitive.0 is F16|F32|F64|I16|I32|I64|I8|U16|U64|U8
self <- dtype(self) is Primitive & dtype(self)@Primitive.0 is U32
@ <vortex::array::primitive::PrimitiveArray as vortex::variants::PrimitiveArrayTrait>::u64_accessor args=self errs=1
None <- dtype(self) is Binary|Bool|Extension|List|Null|Struct|Utf8
None <- dtype(self)@Primitive.0 is F16|F32|F64|I16|I32|I64|I8|U16|U32|U8
self <- dtype(self) is Primitive & dtype(self)@Primitive.0 is U64
@ <vortex::array::primitive::PrimitiveArray as vortex::variants::PrimitiveArrayTrait>::u8_accessor args=self errs=1
None <- dtype(self) is Binary|Bool|Extension|List|Null|Struct|Utf8
None <- dtype(self)@Primitive.0 is F16|F32|F64|I16|I32|I64|I8|U16|U32|U64
self <- dtype(self) is Primitive & dtype(self)@Primitive.0 is U8
@ <vortex::array::primitive::PrimitiveArray>::buffer args=self errs=1
buffer(self)
@ <vortex::array::primitive::PrimitiveArray>::get_as_cast args=self,idx errs=1
index(maybe_null_slice(self), idx)
@ <vortex::array::primitive::PrimitiveArray>::into_buffer args=self errs=1
into_buffer(self)
@ <vortex::array::primitive::PrimitiveArray>::maybe_null_slice args=self errs=1
from_raw_parts(cast(as_ptr(buffer(self)@*)), div(len(buffer(self)@*), size_of()))
@ <vortex::array::primitive::PrimitiveArray>::ptype args=self errs=1
TryFrom.try_from(dtype(self))
@ <vortex::array::primitive::PrimitiveArray>::validity args=self errs=1
Array(child(self, 0, Bool(NonNullable), len(self))) <- validity(self) is Array
validity(self) <- validity(self) is AllInvalid|AllValid|NonNullable
@ <vortex::array::sparse::SparseArray as vortex::variants::ArrayVariants>::as_binary_array args=self errs=1
None <- dtype(self) is Bool|Extension|List|Null|Primitive|Struct|Utf8
self <- dtype(self) is Binary
@ <vortex::array::sparse::SparseArray as vortex::variants::ArrayVariants>::as_bool_array args=self errs=1
None <- dtype(self) is Binary|Extension|List|Null|Primitive|Struct|Utf8
self <- dtype(self) is Bool
@ <vortex::array::sparse::SparseArray as vortex::variants::ArrayVariants>::as_extension_array args=self errs=1
None <- dtype(self) is Binary|Bool|List|Null|Primitive|Struct|Utf8
self <- dtype(self) is Extension
@ <vortex::array::sparse::SparseArray as vortex::variants::ArrayVariants>::as_list_array args=self errs=1
None <- dtype(self) is Binary|Bool|Extension|Null|Primitive|Struct|Utf8
self <- dtype(self) is List
@ <vortex::array::sparse::SparseArray as vortex::variants::ArrayVariants>::as_null_array args=self errs=1
None <- dtype(self) is Binary|Bool|Extension|List|Primitive|Struct|Utf8
self <- dtype(self) is Null
@ <vortex::array::sparse::SparseArray as vortex::variants::ArrayVariants>::as_primitive_array args=self errs=1
None <- dtype(self) is Binary|Bool|Extension|List|Null|Struct|Utf8
self <- dtype(self) is Primitive
@ <vortex::array::sparse::SparseArray as vortex::variants::ArrayVariants>::as_struct_array args=self errs=1
None <- dtype(self) is Binary|Bool|Extension|List|Null|Primitive|Utf8
self <- dtype(self) is Struct
@ <vortex::array::sparse::SparseArray as vortex::variants::ArrayVariants>::as_utf8_array args=self errs=1
None <- dtype(self) is Binary|Bool|Extension|List|Null|Primitive|Struct
self <- dtype(self) is Utf8
@ <vortex::array::sparse::SparseArray as vortex::variants::ExtensionArrayTrait>::storage_array args=self errs=1
SparseArray.try_new_with_offset(indices(self), storage_array(as_extension_array_unchecked(values(self))), len(self), indices_offset(self), fill_value(self))
@ <vortex::array::sparse::SparseArray as vortex::variants::StructArrayTrait>::field args=self,idx voc=field_by_idx,project errs=1
None
SparseArray.try_new_with_offset(indices(self), field(as_struct_array(values(self)), idx), len(self), indices_offset(self), field_by_idx(StructScalar(dtype(self), optfilter(fill_value(self)@List.0, fill_value(self) is List)), idx).value) <- SparseArray.try_new_with_offset(indices(self), field(as_struct_array(values(self)), idx), len(self), indices_offset(self), field_by_idx(StructScalar(dtype(self), optfilter(fill_value(self)@List.0, fill_value(self) is List)), idx).value) is Ok & dtype(self) is Struct & field_by_idx(StructScalar(dtype(self), optfilter(fill_value(self)@List.0, fill_value(self) is List)), idx) is Some
@ <vortex::array::sparse::SparseArray as vortex::variants::StructArrayTrait>::project args=self,projection voc=field_by_idx,project errs=1
SparseArray.try_new_with_offset(indices(self), project(as_struct_array(values(self)), projection), len(self), indices_offset(self), project(StructScalar(dtype(self), optfilter(fill_value(self)@List.0, fill_value(self) is List)), projection).value) <- dtype(self) is Struct & fill_value(self) is List|Null
@ <vortex::array::sparse::SparseArray>::fill_value args=self errs=1
fill_value(self)
@ <vortex::array::sparse::SparseArray>::indices args=self errs=1
child(self, 0, Primitive(U64, NonNullable), indices_len(self))
@ <vortex::array::sparse::SparseArray>::indices_offset args=self errs=1
indices_offset(self)
@ <vortex::array::sparse::SparseArray>::max_index args=self errs=1
None <- Eq(0, len(indices(self)))
[TryFrom.try_from(scalar_at(indices(self), [len(indices(self)) - 1])) - indices_offset(self)] <- !Eq(0, len(indices(self)))
@ <vortex::array::sparse::SparseArray>::resolved_indices args=self errs=1
each([elem(maybe_null_slice(indices(self))) - indices_offset(self)])
@ <vortex::array::sparse::SparseArray>::values args=self errs=1
child(self, 1, dtype(self), indices_len(self))
@ <vortex::array::struct_::StructArray as vortex::variants::ArrayVariants>::as_struct_array args=self errs=1
self
@ <vortex::array::struct_::StructArray as vortex::variants::StructArrayTrait>::field args=self,idx errs=1
optfilter(child(self, idx, index(dtype(self)@Struct.0.dtypes, idx), len(self)), Lt(idx, len(dtype(self)@Struct.0.dtypes)))
@ <vortex::array::struct_::StructArray as vortex::variants::StructArrayTrait>::project args=self,projection errs=1
project(self, projection)
@ <vortex::array::struct_::StructArray>::children args=self errs=1
each(child(self, pos(dtype(self)@Struct.0.names), index(dtype(self)@Struct.0.dtypes, pos(dtype(self)@Struct.0.names)), len(self)))
@ <vortex::array::struct_::StructArray>::project args=self,projection errs=1
StructArray.try_new(each(index(dtype(self)@Struct.0.names, {elem(projection)@Index.0 <- elem(projection) is Index | iposition(dtype(self)@Struct.0.names, Eq(elem(dtype(self)@Struct.0.names), elem(projection)@Name.0)) <- elem(projection) is Name})), each(child(self, {elem(projection)@Index.0 <- elem(projection) is Index | iposition(dtype(self)@Struct.0.names, Eq(elem(dtype(self)@Struct.0.names), elem(projection)@Name.0)) <- elem(projection) is Name}, index(dtype(self)@Struct.0.dtypes, {elem(projection)@Index.0 <- elem(projection) is Index | iposition(dtype(self)@Struct.0.names, Eq(elem(dtype(self)@Struct.0.names), elem(projection)@Name.0)) <- elem(projection) is Name}), len(self))), len(self), validity(self)) <- next(projection) is None
@ <vortex::array::struct_::StructArray>::validity args=self errs=1
Array(child(self, len(dtype(self)@Struct.0.names), Bool(NonNullable), len(self))) <- validity(self) is Array
validity(self) <- validity(self) is AllInvalid|AllValid|NonNullable
@ <vortex::array::varbin::VarBinArray as vortex::variants::ArrayVariants>::as_binary_array args=self errs=1
None <- dtype(self) is Bool|Extension|List|Null|Primitive|Struct|Utf8
self <- dtype(self) is Binary
@ <vortex::array::varbin::VarBinArray as vortex::variants::ArrayVariants>::as_utf8_array args=self errs=1
None <- dtype(self) is Binary|Bool|Extension|List|Null|Primitive|Struct
self <- dtype(self) is Utf8
@ <vortex::array::varbin::VarBinArray>::bytes args=self errs=1
child(self, 1, Primitive(U8, NonNullable), bytes_len(self))
@ <vortex::array::varbin::VarBinArray>::first_offset args=self errs=1
try_into(cast(scalar_at(offsets(self), 0), Primitive(PTYPE, NonNullable)))
@ <vortex::array::varbin::VarBinArray>::into_parts args=self errs=1
(dtype(self), bytes(self), offsets(self), validity(self))
@ <vortex::array::varbin::VarBinArray>::offsets args=self errs=1
child(self, 0, Primitive(offsets_ptype(self), NonNullable), [len(self) + 1])
@ <vortex::array::varbin::VarBinArray>::sliced_bytes args=self errs=1
slice(bytes(self), TryFrom.try_from(scalar_at(offsets(self), 0)), TryFrom.try_from(scalar_at(offsets(self), [len(offsets(self)) - 1])))
@ <vortex::array::varbin::VarBinArray>::validity args=self errs=1
Array(child(self, 2, Bool(NonNullable), len(self))) <- validity(self) is Array
validity(self) <- validity(self) is AllInvalid|AllValid|NonNullable
@ <vortex::array::varbinview::VarBinViewArray as vortex::variants::ArrayVariants>::as_binary_array args=self errs=1
None <- dtype(self) is Bool|Extension|List|Null|Primitive|Struct|Utf8
self <- dtype(self) is Binary
@ <vortex::array::varbinview::VarBinViewArray as vortex::variants::ArrayVariants>::as_utf8_array args=self errs=1
None <- dtype(self) is Binary|Bool|Extension|List|Null|Primitive|Struct
self <- dtype(self) is Utf8
@ <vortex::array::varbinview::VarBinViewArray>::binary_views args=self errs=1
Views({buffer(views(self)@View.0) <- views(self) is View | views(self)@Data.0.buffer <- views(self) is Data}, len(self), 0)
@ <vortex::array::varbinview::VarBinViewArray>::buffer_count args=self errs=1
len(buffer_lens(self))
@ <vortex::array::varbinview::VarBinViewArray>::buffers args=self errs=1
Buffers(0, TryFrom.try_from(buffer_count(self)), self)
@ <vortex::array::varbinview::VarBinViewArray>::validity args=self errs=1
Array(child(self, [len(buffer_lens(self)) + 1], Bool(NonNullable), len(self))) <- validity(self) is Array
validity(self) <- validity(self) is AllInvalid|AllValid|NonNullable
@ <vortex::array::varbinview::VarBinViewArray>::views args=self errs=1
child(self, 0, Primitive(U8, NonNullable), [16*len(self)])
@ <vortex::data::ArrayData>::buffer args=self errs=1
self.buffer
@ <vortex::data::ArrayData>::child args=self,index,dtype,len errs=1
index(self.children, index) <- Lt(index, len(self.children))
@ <vortex::data::ArrayData>::children args=self errs=1
self.children
@ <vortex::data::ArrayData>::dtype args=self errs=1
dtype(self)
@ <vortex::data::ArrayData>::encoding args=self errs=1
self.encoding
@ <vortex::data::ArrayData>::into_buffer args=self errs=1
self.buffer
@ <vortex::data::ArrayData>::is_empty args=self errs=1
Eq(0, self.len)
@ <vortex::data::ArrayData>::len args=self errs=1
self.len
@ <vortex::data::ArrayData>::metadata args=self errs=1
self.metadata
@ <vortex::data::ArrayData>::nchildren args=self errs=1
len(self.children)
@ <vortex::data::ArrayData>::statistics args=self errs=1
self
@ <vortex::typed::TypedArray<D>>::metadata args=self errs=1
downcast_ref(as_any(metadata(self@Data.0))) <- self is Data
get_or_init(self.lazy_metadata, fn(try_deserialize_metadata(metadata(self@View.0)))) <- self is View
@ <vortex::view::ArrayView>::array_child args=self,idx errs=1
None <- !Lt(idx, len(get(Table.new(self.flatbuffer@*, self.flatbuffer_loc), 14, None)))
None <- get(Table.new(self.flatbuffer@*, self.flatbuffer_loc), 14, None) is None
get(get(Table.new(self.flatbuffer@*, self.flatbuffer_loc), 14, None), idx) <- Lt(idx, len(get(Table.new(self.flatbuffer@*, self.flatbuffer_loc), 14, None))) & get(Table.new(self.flatbuffer@*, self.flatbuffer_loc), 14, None) is Some
@ <vortex::view::ArrayView>::buffer args=self errs=1
index(self.buffers, get(Table.new(self.flatbuffer@*, self.flatbuffer_loc), 6, None))
@ <vortex::view::ArrayView>::child args=self,idx,dtype,len errs=1
ArrayView(or(get(self.ctx.encodings, get(get(get(Table.new(self.flatbuffer@*, self.flatbuffer_loc), 14, None), idx)._tab, 8, 0)), leak(OpaqueEncoding(get(get(get(Table.new(self.flatbuffer@*, self.flatbuffer_loc), 14, None), idx)._tab, 8, 0)))), dtype, len, self.flatbuffer, loc(get(get(Table.new(self.flatbuffer@*, self.flatbuffer_loc), 14, None), idx)._tab), self.buffers, self.ctx)
@ <vortex::view::ArrayView>::children args=self errs=1
default(vortex::view::ChildrenCollector).accept(View(self)).children
@ <vortex::view::ArrayView>::dtype args=self errs=1
dtype(self)
@ <vortex::view::ArrayView>::encoding args=self errs=1
self.encoding
@ <vortex::view::ArrayView>::flatbuffer args=self errs=1
Array(Table.new(self.flatbuffer@*, self.flatbuffer_loc))
@ <vortex::view::ArrayView>::has_buffer args=self errs=1
isSome(get(Table.new(self.flatbuffer@*, self.flatbuffer_loc), 6, None))
@ <vortex::view::ArrayView>::is_empty args=self errs=1
Eq(0, self.len)
@ <vortex::view::ArrayView>::len args=self errs=1
self.len
@ <vortex::view::ArrayView>::metadata args=self errs=1
bytes(metadata(Array(Table.new(self.flatbuffer@*, self.flatbuffer_loc))))
@ <vortex::view::ArrayView>::nchildren args=self errs=1
or(len(get(Table.new(self.flatbuffer@*, self.flatbuffer_loc), 14, None)), 0)
@ <vortex::view::ArrayView>::statistics args=self errs=1
self
@ <vortex_alp::alp::array::ALPArray as vortex::variants::ArrayVariants>::as_primitive_array args=self errs=1
self
@ <vortex_alp::alp::array::ALPArray as vortex::variants::PrimitiveArrayTrait>::f32_accessor args=self errs=1
ALPAccessor(i32_accessor(as_primitive_array_unchecked(encoded(self))), f32_accessor(as_primitive_array_unchecked(patches(self))), {Array(logical_validity(self)@Array.0) <- logical_validity(self) is Array | logical_validity(self) <- logical_validity(self) is AllInvalid|AllValid}, exponents(self)) <- dtype(self) is Primitive & dtype(self)@Primitive.0 is F32
None <- dtype(self) is Binary|Bool|Extension|List|Null|Struct|Utf8
None <- dtype(self)@Primitive.0 is F16|F64|I16|I32|I64|I8|U16|U32|U64|U8
@ <vortex_alp::alp::array::ALPArray as vortex::variants::PrimitiveArrayTrait>::f64_accessor args=self errs=1
ALPAccessor(i64_accessor(as_primitive_array_unchecked(encoded(self))), f64_accessor(as_primitive_array_unchecked(patches(self))), {Array(logical_validity(self)@Array.0) <- logical_validity(self) is Array | logical_validity(self) <- logical_validity(self) is AllInvalid|AllValid}, exponents(self)) <- dtype(self) is Primitive & dtype(self)@Primitive.0 is F64
None <- dtype(self) is Binary|Bool|Extension|List|Null|Struct|Utf8
None <- dtype(self)@Primitive.0 is F16|F32|I16|I32|I64|I8|U16|U32|U64|U8
@ <vortex_alp::alp::array::ALPArray>::encoded args=self errs=1
child(self, 0, encoded_dtype(self), len(self))
@ <vortex_alp::alp::array::ALPArray>::encoded_dtype args=self errs=1
Primitive(I32, nullability(dtype(self))) <- dtype(self)@Primitive.0 is F32
Primitive(I64, nullability(dtype(self))) <- dtype(self)@Primitive.0 is F64
@ <vortex_alp::alp::array::ALPArray>::exponents args=self errs=1
exponents(self)
@ <vortex_alp::alp::array::ALPArray>::patches args=self errs=1
None <- !Lt(1, {len(self@Data.0.children) <- self is Data | or(len(get(Table.new(self@View.0.flatbuffer@*, self@View.0.flatbuffer_loc), 14, None)), 0) <- self is View})
child(self, 1, patches_dtype(self), len(self)) <- Lt(1, {len(self@Data.0.children) <- self is Data | or(len(get(Table.new(self@View.0.flatbuffer@*, self@View.0.flatbuffer_loc), 14, None)), 0) <- self is View})
@ <vortex_alp::alp::array::ALPArray>::patches_dtype args=self errs=1
Binary(Nullable) <- dtype(self) is Binary
Bool(Nullable) <- dtype(self) is Bool
Extension(dtype(self)@Extension.0, Nullable) <- dtype(self) is Extension
List(dtype(self)@List.0, Nullable) <- dtype(self) is List
Primitive(dtype(self)@Primitive.0, Nullable) <- dtype(self) is Primitive
Struct(dtype(self)@Struct.0, Nullable) <- dtype(self) is Struct
Utf8(Nullable) <- dtype(self) is Utf8
dtype(self) <- dtype(self) is Null
@ <vortex_alp::alp::array::ALPArray>::ptype args=self errs=1
TryFrom.try_from(dtype(self))
@ <vortex_alp::alp_rd::array::ALPRDArray as vortex::variants::ArrayVariants>::as_primitive_array args=self errs=1
self
@ <vortex_alp::alp_rd::array::ALPRDArray as vortex::variants::ArrayVariants>::as_primitive_array_unchecked args=self errs=1
self
@ <vortex_alp::alp_rd::array::ALPRDArray>::is_f32 args=self errs=1
TryFrom.try_from(dtype(self)) is F32
@ <vortex_alp::alp_rd::array::ALPRDArray>::left_parts args=self errs=1
child(self, 0, left_parts_dtype(self), len(self))
@ <vortex_alp::alp_rd::array::ALPRDArray>::left_parts_dict args=self errs=1
index(dict(self), 0..dict_len(self))
@ <vortex_alp::alp_rd::array::ALPRDArray>::left_parts_dtype args=self errs=1
Primitive(left_parts_ptype(self), nullability(dtype(self)))
@ <vortex_alp::alp_rd::array::ALPRDArray>::left_parts_exceptions args=self errs=1
None <- !has_exceptions(self)
child(self, 2, left_parts_exceptions_dtype(self), len(self)) <- has_exceptions(self)
@ <vortex_alp::alp_rd::array::ALPRDArray>::left_parts_exceptions_dtype args=self errs=1
Primitive(left_parts_ptype(self), Nullable)
@ <vortex_alp::alp_rd::array::ALPRDArray>::right_bit_width args=self errs=1
right_bit_width(self)
@ <vortex_alp::alp_rd::array::ALPRDArray>::right_parts args=self errs=1
child(self, 1, right_parts_dtype(self), len(self))
@ <vortex_alp::alp_rd::array::ALPRDArray>::right_parts_dtype args=self errs=1
Primitive({U32 <- is_f32(self) | U64 <- !is_f32(self)}, NonNullable)
@ <vortex_bytebool::array::ByteBoolArray as vortex::variants::ArrayVariants>::as_bool_array args=self errs=1
self
@ <vortex_bytebool::array::ByteBoolArray>::buffer args=self errs=1
buffer(self)
@ <vortex_bytebool::array::ByteBoolArray>::maybe_null_slice args=self errs=1
transmute(buffer(self)@*)
@ <vortex_bytebool::array::ByteBoolArray>::validity args=self errs=1
Array(child(self, 0, Bool(NonNullable), len(self))) <- validity(self) is Array
validity(self) <- validity(self) is AllInvalid|AllValid|NonNullable
@ <vortex_datetime_parts::array::DateTimePartsArray as vortex::variants::ArrayVariants>::as_extension_array args=self errs=1
self
@ <vortex_datetime_parts::array::DateTimePartsArray as vortex::variants::ExtensionArrayTrait>::storage_array args=self errs=1
StructArray.try_new(['days', 'seconds', 'subseconds'], [try_cast(days(self), {Binary(NonNullable) <- dtype(days(self)) is Binary | Bool(NonNullable) <- dtype(days(self)) is Bool | Extension(dtype(days(self))@Extension.0, NonNullable) <- dtype(days(self)) is Extension | List(dtype(days(self))@List.0, NonNullable) <- dtype(days(self)) is List | Primitive(dtype(days(self))@Primitive.0, NonNullable) <- dtype(days(self)) is Primitive | Struct(dtype(days(self))@Struct.0, NonNullable) <- dtype(days(self)) is Struct | Utf8(NonNullable) <- dtype(days(self)) is Utf8 | dtype(days(self)) <- dtype(days(self)) is Null}), seconds(self), subsecond(self)], len(self), validity(self))
@ <vortex_datetime_parts::array::DateTimePartsArray>::days args=self errs=1
child(self, 0, Primitive(days_ptype(self), nullability(dtype(self))), len(self))
@ <vortex_datetime_parts::array::DateTimePartsArray>::seconds args=self errs=1
child(self, 1, Primitive(seconds_ptype(self), NonNullable), len(self))
@ <vortex_datetime_parts::array::DateTimePartsArray>::subsecond args=self errs=1
child(self, 2, Primitive(subseconds_ptype(self), NonNullable), len(self))
@ <vortex_datetime_parts::array::DateTimePartsArray>::validity args=self errs=1
AllInvalid <- logical_validity(days(self)) is AllInvalid & nullability(dtype(self)) is Nullable
AllValid <- logical_validity(days(self)) is AllValid & nullability(dtype(self)) is Nullable
Array(logical_validity(days(self))@Array.0) <- logical_validity(days(self)) is Array & nullability(dtype(self)) is Nullable
nullability(dtype(self)) <- nullability(dtype(self)) is NonNullable
@ <vortex_dict::array::DictArray as vortex::variants::ArrayVariants>::as_binary_array args=self errs=1
None <- dtype(self) is Bool|Extension|List|Null|Primitive|Struct|Utf8
self <- dtype(self) is Binary
@ <vortex_dict::array::DictArray as vortex::variants::ArrayVariants>::as_primitive_array args=self errs=1
None <- dtype(self) is Binary|Bool|Extension|List|Null|Struct|Utf8
self <- dtype(self) is Primitive
@ <vortex_dict::array::DictArray as vortex::variants::ArrayVariants>::as_utf8_array args=self errs=1
None <- dtype(self) is Binary|Bool|Extension|List|Null|Primitive|Struct
self <- dtype(self) is Utf8
@ <vortex_dict::array::DictArray>::codes args=self errs=1
child(self, 1, Primitive(codes_ptype(self), NonNullable), len(self))
@ <vortex_dict::array::DictArray>::values args=self errs=1
child(self, 0, dtype(self), values_len(self))
@ <vortex_fastlanes::bitpacking::BitPackedArray as vortex::ArrayTrait>::nbytes args=self errs=1
[div([bit_width(self)*len(self) + 7], 8) + or(nbytes(patches(self)), 0)]
@ <vortex_fastlanes::bitpacking::BitPackedArray as vortex::variants::ArrayVariants>::as_primitive_array args=self errs=1
self
@ <vortex_fastlanes::bitpacking::BitPackedArray>::bit_width args=self errs=1
bit_width(self)
@ <vortex_fastlanes::bitpacking::BitPackedArray>::offset args=self errs=1
offset(self)
@ <vortex_fastlanes::bitpacking::BitPackedArray>::packed args=self errs=1
{index(self@View.0.buffers, get(Table.new(self@View.0.flatbuffer@*, self@View.0.flatbuffer_loc), 6, None)) <- self is View | self@Data.0.buffer <- self is Data}
@ <vortex_fastlanes::bitpacking::BitPackedArray>::packed_slice args=self errs=1
from_raw_parts(cast(as_ptr(packed(self)@*)), div(len(packed(self)), size_of()))
@ <vortex_fastlanes::bitpacking::BitPackedArray>::patches args=self errs=1
None <- !has_patches(self)
child(self, 0, {Binary(Nullable) <- dtype(self) is Binary | Bool(Nullable) <- dtype(self) is Bool | Extension(dtype(self)@Extension.0, Nullable) <- dtype(self) is Extension | List(dtype(self)@List.0, Nullable) <- dtype(self) is List | Primitive(dtype(self)@Primitive.0, Nullable) <- dtype(self) is Primitive | Struct(dtype(self)@Struct.0, Nullable) <- dtype(self) is Struct | Utf8(Nullable) <- dtype(self) is Utf8 | dtype(self) <- dtype(self) is Null}, len(self)) <- has_patches(self)
@ <vortex_fastlanes::bitpacking::BitPackedArray>::ptype args=self errs=1
TryFrom.try_from(dtype(self))
@ <vortex_fastlanes::bitpacking::BitPackedArray>::validity args=self errs=1
Array(child(self, {0 <- !has_patches(self) | 1 <- has_patches(self)}, Bool(NonNullable), len(self))) <- validity(self) is Array
validity(self) <- validity(self) is AllInvalid|AllValid|NonNullable
@ <vortex_fastlanes::delta::DeltaArray as vortex::variants::ArrayVariants>::as_primitive_array args=self errs=1
self
@ <vortex_fastlanes::delta::DeltaArray>::bases args=self errs=1
child(self, 0, dtype(self), bases_len(self))
@ <vortex_fastlanes::delta::DeltaArray>::bases_len args=self errs=1
[div(len(deltas(self)), 1024)*lanes(self) + {0 <- Eq(0, rem(len(deltas(self)), 1024)) | 1 <- !Eq(0, rem(len(deltas(self)), 1024))}]
@ <vortex_fastlanes::delta::DeltaArray>::deltas args=self errs=1
child(self, 1, dtype(self), deltas_len(self))
@ <vortex_fastlanes::delta::DeltaArray>::deltas_len args=self errs=1
deltas_len(self)
@ <vortex_fastlanes::delta::DeltaArray>::lanes args=self errs=1
128 <- TryFrom.try_from(dtype(self)) is U8
16 <- TryFrom.try_from(dtype(self)) is U64
32 <- TryFrom.try_from(dtype(self)) is U32
64 <- TryFrom.try_from(dtype(self)) is U16
@ <vortex_fastlanes::delta::DeltaArray>::offset args=self errs=1
offset(self)
@ <vortex_fastlanes::delta::DeltaArray>::validity args=self errs=1
Array(child(self, 2, Bool(NonNullable), len(self))) <- validity(self) is Array
validity(self) <- validity(self) is AllInvalid|AllValid|NonNullable
@ <vortex_fastlanes::for::FoRArray as vortex::ArrayTrait>::nbytes args=self errs=1
nbytes(encoded(self))
@ <vortex_fastlanes::for::FoRArray as vortex::variants::ArrayVariants>::as_primitive_array args=self errs=1
self
@ <vortex_fastlanes::for::FoRArray>::encoded args=self errs=1
child(self, 0, {Primitive({U16 <- ptype(self) is I16 | U32 <- ptype(self) is I32 | U64 <- ptype(self) is I64 | U8 <- ptype(self) is I8}, nullability(dtype(self))) <- ptype(self) is I16|I32|I64|I8 | dtype(self) <- ptype(self) is F16|F32|F64|U16|U32|U64|U8}, len(self))
@ <vortex_fastlanes::for::FoRArray>::owned_reference_scalar args=self errs=1
Scalar(dtype(self), reference(self))
@ <vortex_fastlanes::for::FoRArray>::ptype args=self errs=1
TryFrom.try_from(dtype(self))
@ <vortex_fastlanes::for::FoRArray>::reference args=self errs=1
reference(self)
@ <vortex_fastlanes::for::FoRArray>::shift args=self errs=1
shift(self)
@ <vortex_fsst::array::FSSTArray as vortex::variants::ArrayVariants>::as_binary_array args=self errs=1
self
@ <vortex_fsst::array::FSSTArray as vortex::variants::ArrayVariants>::as_utf8_array args=self errs=1
self
@ <vortex_fsst::array::FSSTArray>::codes args=self errs=1
child(self, 2, codes_dtype(self), len(self))
@ <vortex_fsst::array::FSSTArray>::codes_dtype args=self errs=1
Binary(codes_nullability(self))
@ <vortex_fsst::array::FSSTArray>::symbol_lengths args=self errs=1
child(self, 1, ('#', ('static', 'vortex_fsst::array::SYMBOL_LENS_DTYPE')), symbols_len(self))
@ <vortex_fsst::array::FSSTArray>::symbols args=self errs=1
child(self, 0, ('#', ('static', 'vortex_fsst::array::SYMBOLS_DTYPE')), symbols_len(self))
@ <vortex_fsst::array::FSSTArray>::uncompressed_lengths args=self errs=1
child(self, 3, uncompressed_lengths_dtype(self), len(self))
@ <vortex_fsst::array::FSSTArray>::uncompressed_lengths_dtype args=self errs=1
Primitive(uncompressed_lengths_ptype(self), NonNullable)
@ <vortex_fsst::array::FSSTArray>::validity args=self errs=1
validity(TryFrom.try_from(codes(self)))
@ <vortex_roaring::boolean::RoaringBoolArray as vortex::variants::ArrayVariants>::as_bool_array args=self errs=1
self
@ <vortex_roaring::boolean::RoaringBoolArray>::bitmap args=self errs=1
deserialize(buffer(self)@*)
@ <vortex_roaring::boolean::RoaringBoolArray>::buffer args=self errs=1
buffer(self)
@ <vortex_roaring::integer::RoaringIntArray as vortex::variants::ArrayVariants>::as_primitive_array args=self errs=1
self
@ <vortex_roaring::integer::RoaringIntArray>::owned_bitmap args=self errs=1
deserialize({index(self@View.0.buffers, get(Table.new(self@View.0.flatbuffer@*, self@View.0.flatbuffer_loc), 6, None)) <- self is View | self@Data.0.buffer <- self is Data}@*)
@ <vortex_roaring::integer::RoaringIntArray>::ptype args=self errs=1
ptype(self)
@ <vortex_runend::array::RunEndArray as vortex::variants::ArrayVariants>::as_primitive_array args=self errs=1
self
@ <vortex_runend::array::RunEndArray>::ends args=self errs=1
child(self, 0, Primitive(ends_ptype(self), NonNullable), num_runs(self))
@ <vortex_runend::array::RunEndArray>::offset args=self errs=1
offset(self)
@ <vortex_runend::array::RunEndArray>::validity args=self errs=1
Array(child(self, 2, Bool(NonNullable), len(self))) <- validity(self) is Array
validity(self) <- validity(self) is AllInvalid|AllValid|NonNullable
@ <vortex_runend::array::RunEndArray>::values args=self errs=1
child(self, 1, dtype(self), num_runs(self))
@ <vortex_runend_bool::array::RunEndBoolArray as vortex::variants::ArrayVariants>::as_bool_array args=self errs=1
self
@ <vortex_runend_bool::array::RunEndBoolArray>::ends args=self errs=1
child(self, 0, Primitive(ends_ptype(self), NonNullable), num_runs(self))
@ <vortex_runend_bool::array::RunEndBoolArray>::offset args=self errs=1
offset(self)
@ <vortex_runend_bool::array::RunEndBoolArray>::start args=self errs=1
start(self)
@ <vortex_runend_bool::array::RunEndBoolArray>::validity args=self errs=1
Array(child(self, 1, Bool(NonNullable), len(self))) <- validity(self) is Array
validity(self) <- validity(self) is AllInvalid|AllValid|NonNullable
@ <vortex_zigzag::array::ZigZagArray as vortex::variants::ArrayVariants>::as_primitive_array args=self errs=1
self
@ <vortex_zigzag::array::ZigZagArray>::encoded args=self errs=1
child(self, 0, Primitive({TryFrom.try_from(dtype(self)) <- TryFrom.try_from(dtype(self)) is F16|F32|F64|U16|U32|U64|U8 | U16 <- TryFrom.try_from(dtype(self)) is I16 | U32 <- TryFrom.try_from(dtype(self)) is I32 | U64 <- TryFrom.try_from(dtype(self)) is I64 | U8 <- TryFrom.try_from(dtype(self)) is I8}, nullability(dtype(self))), len(self))
@ <vortex_zigzag::array::ZigZagArray>::ptype args=self errs=1
TryFrom.try_from(dtype(self))
'''
def run(c):
    spec.run_tables(c, (('build', BUILD), ('read', READ),), 'must accept only parts that fit and give back the part it was built from', None, ('read', 150))
