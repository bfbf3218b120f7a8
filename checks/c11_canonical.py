from lib import *
import spec
ID = 'C11'
TITLE = 'Decoding to the canonical form'
RULE = "the normal form of every into_canonical and of the decoders behind it is compared with the form that denotes the decoded array: the decoding function applied to exactly the array's own components (values, width, offset, reference, exponents, patches at their own positions), with the array's length, type and validity"
CANON = r'''
@ <vortex::array::bool::BoolArray as vortex::canonical::IntoCanonical>::into_canonical args=self
Bool(self)
@ <vortex::array::extension::ExtensionArray as vortex::canonical::IntoCanonical>::into_canonical args=self
Extension(self)
@ <vortex::array::null::NullArray as vortex::canonical::IntoCanonical>::into_canonical args=self
Null(self)
@ <vortex::array::primitive::PrimitiveArray as vortex::canonical::IntoCanonical>::into_canonical args=self
Primitive(self)
@ <vortex::array::struct_::StructArray as vortex::canonical::IntoCanonical>::into_canonical args=self
Struct(self)
@ <vortex::array::varbinview::VarBinViewArray as vortex::canonical::IntoCanonical>::into_canonical args=self
VarBinView(TryFrom.try_from(Arc.from_arrow(varbinview_as_arrow(self), nullability(dtype(self)) is Nullable)))
@ <vortex::array::varbin::VarBinArray as vortex::canonical::IntoCanonical>::into_canonical args=self
VarBinView(TryFrom.try_from(Arc.from_arrow(cast(varbin_to_arrow(self), {BinaryView <- dtype(self) is Binary | Utf8View <- dtype(self) is Bool|Extension|List|Null|Primitive|Struct|Utf8}), nullability(dtype(self)) is Nullable)))
@ <vortex::array::chunked::ChunkedArray as vortex::canonical::IntoCanonical>::into_canonical args=self
try_canonicalize_chunks(chunks(self), {into_validity(logical_validity(self)) <- nullability(dtype(self)) is Nullable | nullability(dtype(self)) <- nullability(dtype(self)) is NonNullable}, dtype(self))
@ <vortex::array::constant::ConstantArray as vortex::canonical::IntoCanonical>::into_canonical args=self ptype=I32
VarBinView(canonical_byte_view(TryFrom.try_from(owned_scalar(self)).value@*, dtype(self), len(self))) <- TryFrom.try_from(owned_scalar(self)) is Err & TryFrom.try_from(owned_scalar(self)) is Ok
VarBinView(canonical_byte_view(from_utf8_unchecked(TryFrom.try_from(owned_scalar(self)).value.0@*), dtype(self), len(self))) <- TryFrom.try_from(owned_scalar(self)) is Err & TryFrom.try_from(owned_scalar(self)) is Ok
or(Bool(BoolArray.try_new({new_set(len(self)) <- Eq(True, TryFrom.try_from(owned_scalar(self)).value) | new_unset(len(self)) <- !Eq(True, TryFrom.try_from(owned_scalar(self)).value)}, {AllInvalid <- is_null(owned_scalar(self)) & nullability(dtype(self)) is Nullable | AllValid <- !is_null(owned_scalar(self)) & nullability(dtype(self)) is Nullable | nullability(dtype(self)) <- nullability(dtype(self)) is NonNullable})), Primitive(PrimitiveArray.from_vec(from_elem(or(TryFrom.try_from(owned_scalar(self)), 0), len(self)), {AllInvalid <- is_null(owned_scalar(self)) & nullability(dtype(self)) is Nullable | AllValid <- !is_null(owned_scalar(self)) & nullability(dtype(self)) is Nullable | nullability(dtype(self)) <- nullability(dtype(self)) is NonNullable})))
@ <vortex::array::sparse::SparseArray as vortex::canonical::IntoCanonical>::into_canonical args=self voc=canonicalize_sparse_bools,canonicalize_sparse_primitives,canonicalize_sparse_validity,boolean_buffer ptype=I32
canonicalize_sparse_bools(boolean_buffer(values(self)), resolved_indices(self), len(self), fill_value(self), canonicalize_sparse_validity(validity(values(self)), resolved_indices(self), len(self), fill_value(self))) <- dtype(self) is Bool
canonicalize_sparse_primitives(maybe_null_slice(values(self)), resolved_indices(self), len(self), fill_value(self), canonicalize_sparse_validity(validity(values(self)), resolved_indices(self), len(self), fill_value(self))) <- dtype(self) is Binary|Extension|List|Null|Primitive|Struct|Utf8
@ <vortex_alp::alp_rd::array::ALPRDArray as vortex::canonical::IntoCanonical>::into_canonical args=self voc=alp_rd_decode,resolved_indices,values ptype=F32
Primitive(PrimitiveArray.from_vec(alp_rd_decode(maybe_null_slice(left_parts(self)), index(dict(self), 0..dict_len(self)), right_bit_width(self), maybe_null_slice(right_parts(self)), or(each(elem(resolved_indices(TryFrom.try_from(left_parts_exceptions(self))))), Vec.new()), maybe_null_slice(or(values(TryFrom.try_from(left_parts_exceptions(self))), PrimitiveArray.from_vec(Vec.new(), NonNullable)))), validity(left_parts(self))))
@ <vortex_bytebool::array::ByteBoolArray as vortex::canonical::IntoCanonical>::into_canonical args=self ptype=I32
Bool(BoolArray.try_new(maybe_null_slice(self), validity(self)))
@ <vortex_datetime_parts::array::DateTimePartsArray as vortex::canonical::IntoCanonical>::into_canonical args=self ptype=I32
Extension(decode_to_temporal(self).ext)
@ <vortex_dict::array::DictArray as vortex::canonical::IntoCanonical>::into_canonical args=self ptype=I32
take(values(self)@*, codes(self))
@ <vortex_fastlanes::bitpacking::BitPackedArray as vortex::canonical::IntoCanonical>::into_canonical args=self ptype=I32
Primitive(unpack(self))
@ <vortex_fastlanes::delta::DeltaArray as vortex::canonical::IntoCanonical>::into_canonical args=self ptype=I32
Primitive(delta_decompress(self))
@ <vortex_fastlanes::for::FoRArray as vortex::canonical::IntoCanonical>::into_canonical args=self ptype=I32
Primitive(decompress(self))
@ <vortex_roaring::boolean::RoaringBoolArray as vortex::canonical::IntoCanonical>::into_canonical args=self ptype=I32
Bool(BoolArray.try_new(BooleanBuffer.new({MutableBuffer.with_capacity().extend_from_slice(to_bitset(bitmap(self))) <- !Lt(size_in_bytes(to_bitset(bitmap(self))), div([len(self) + 7], 8)) | MutableBuffer.with_capacity().extend_from_slice(to_bitset(bitmap(self))).extend_zeros([div([len(self) + 7], 8) - size_in_bytes(to_bitset(bitmap(self)))]) <- Lt(size_in_bytes(to_bitset(bitmap(self))), div([len(self) + 7], 8))}, 0, len(self)), NonNullable))
@ <vortex_roaring::integer::RoaringIntArray as vortex::canonical::IntoCanonical>::into_canonical args=self ptype=I32
try_cast(PrimitiveArray.from_vec(to_vec(owned_bitmap(self)), NonNullable), dtype(self))
@ <vortex_runend::array::RunEndArray as vortex::canonical::IntoCanonical>::into_canonical args=self ptype=I32
Primitive(runend_decode(ends(self), values(self), validity(self), offset(self), len(self)))
@ <vortex_runend_bool::array::RunEndBoolArray as vortex::canonical::IntoCanonical>::into_canonical args=self ptype=I32
Bool(runend_bool_decode(ends(self), start(self), validity(self), offset(self), len(self)))
@ <vortex_zigzag::array::ZigZagArray as vortex::canonical::IntoCanonical>::into_canonical args=self ptype=I32
Primitive(zigzag_decode(encoded(self)))
@ <vortex_alp::alp::array::ALPArray as vortex::canonical::IntoCanonical>::into_canonical args=self
Primitive(decompress(self))
@ <vortex_fsst::array::FSSTArray as vortex::canonical::IntoCanonical>::into_canonical args=self voc=sliced_bytes,decompress,codes,uncompressed_lengths under=all calls=decompress n=1
decompress($0, maybe_null_slice(as_primitive(sliced_bytes(TryFrom.try_from(codes(self))))))
@ <vortex_fsst::array::FSSTArray as vortex::canonical::IntoCanonical>::into_canonical args=self
FSSTArray.with_decompressor(self, fn(VarBinView(VarBinArray.try_new(PrimitiveArray.from_vec(each([elem(maybe_null_slice(uncompressed_lengths(self))) + sum(each(elem(maybe_null_slice(uncompressed_lengths(self)))))]), NonNullable), PrimitiveArray.from_vec(decompress($0, maybe_null_slice(as_primitive(sliced_bytes(TryFrom.try_from(codes(self)))))), NonNullable), dtype(self), validity(self)))))
@ <vortex::Array as vortex::canonical::IntoCanonical>::into_canonical args=self
canonicalize(encoding(self), self)
@ <vortex::Array as core::convert::From<vortex::canonical::Canonical>>::from args=value
value@*
@ <vortex::canonical::Canonical>::into_bool args=self errs=1
self@Bool.0 <- self is Bool
@ <vortex::canonical::Canonical>::into_extension args=self errs=1
self@Extension.0 <- self is Extension
@ <vortex::canonical::Canonical>::into_null args=self errs=1
self@Null.0 <- self is Null
@ <vortex::canonical::Canonical>::into_primitive args=self errs=1
self@Primitive.0 <- self is Primitive
@ <vortex::canonical::Canonical>::into_struct args=self errs=1
self@Struct.0 <- self is Struct
@ <vortex::canonical::Canonical>::into_varbinview args=self errs=1
self@VarBinView.0 <- self is VarBinView
@ <T as vortex::canonical::IntoArrayVariant>::into_bool args=self
self
@ <T as vortex::canonical::IntoArrayVariant>::into_extension args=self
self
@ <T as vortex::canonical::IntoArrayVariant>::into_null args=self voc=into_null,into_bool,into_primitive,into_struct,into_varbinview,into_extension
self
@ <T as vortex::canonical::IntoArrayVariant>::into_primitive args=self
self
@ <T as vortex::canonical::IntoArrayVariant>::into_struct args=self
self
@ <T as vortex::canonical::IntoArrayVariant>::into_varbinview args=self
self
@ <vortex::array::bool::BoolEncoding as vortex::encoding::ArrayEncoding>::canonicalize args=self,array
array
@ <vortex::array::chunked::ChunkedEncoding as vortex::encoding::ArrayEncoding>::canonicalize args=self,array
array
@ <vortex::array::constant::ConstantEncoding as vortex::encoding::ArrayEncoding>::canonicalize args=self,array
array
@ <vortex::array::extension::ExtensionEncoding as vortex::encoding::ArrayEncoding>::canonicalize args=self,array
array
@ <vortex::array::null::NullEncoding as vortex::encoding::ArrayEncoding>::canonicalize args=self,array
array
@ <vortex::array::primitive::PrimitiveEncoding as vortex::encoding::ArrayEncoding>::canonicalize args=self,array
array
@ <vortex::array::sparse::SparseEncoding as vortex::encoding::ArrayEncoding>::canonicalize args=self,array
array
@ <vortex::array::struct_::StructEncoding as vortex::encoding::ArrayEncoding>::canonicalize args=self,array
array
@ <vortex::array::varbin::VarBinEncoding as vortex::encoding::ArrayEncoding>::canonicalize args=self,array
array
@ <vortex::array::varbinview::VarBinViewEncoding as vortex::encoding::ArrayEncoding>::canonicalize args=self,array
array
@ <vortex_alp::alp::array::ALPEncoding as vortex::encoding::ArrayEncoding>::canonicalize args=self,array
array
@ <vortex_alp::alp_rd::array::ALPRDEncoding as vortex::encoding::ArrayEncoding>::canonicalize args=self,array
array
@ <vortex_bytebool::array::ByteBoolEncoding as vortex::encoding::ArrayEncoding>::canonicalize args=self,array
array
@ <vortex_datetime_parts::array::DateTimePartsEncoding as vortex::encoding::ArrayEncoding>::canonicalize args=self,array
array
@ <vortex_dict::array::DictEncoding as vortex::encoding::ArrayEncoding>::canonicalize args=self,array
array
@ <vortex_fastlanes::bitpacking::BitPackedEncoding as vortex::encoding::ArrayEncoding>::canonicalize args=self,array
array
@ <vortex_fastlanes::delta::DeltaEncoding as vortex::encoding::ArrayEncoding>::canonicalize args=self,array
array
@ <vortex_fastlanes::for::FoREncoding as vortex::encoding::ArrayEncoding>::canonicalize args=self,array
array
@ <vortex_fsst::array::FSSTEncoding as vortex::encoding::ArrayEncoding>::canonicalize args=self,array
array
@ <vortex_roaring::boolean::RoaringBoolEncoding as vortex::encoding::ArrayEncoding>::canonicalize args=self,array
array
@ <vortex_roaring::integer::RoaringIntEncoding as vortex::encoding::ArrayEncoding>::canonicalize args=self,array
array
@ <vortex_runend::array::RunEndEncoding as vortex::encoding::ArrayEncoding>::canonicalize args=self,array
array
@ <vortex_runend_bool::array::RunEndBoolEncoding as vortex::encoding::ArrayEncoding>::canonicalize args=self,array
array
@ <vortex_zigzag::array::ZigZagEncoding as vortex::encoding::ArrayEncoding>::canonicalize args=self,array
array
@ vortex::array::chunked::canonical::try_canonicalize_chunks args=chunks,validity,dtype when=dtype:Struct
Struct(swizzle_struct_chunks(chunks, validity, dtype@Struct.0))
@ vortex::array::chunked::canonical::try_canonicalize_chunks args=chunks,validity,dtype when=dtype:Bool
Bool(pack_bools(chunks, validity))
@ vortex::array::chunked::canonical::try_canonicalize_chunks args=chunks,validity,dtype when=dtype:Primitive
Primitive(pack_primitives(chunks, dtype@Primitive.0, validity))
@ vortex::array::chunked::canonical::try_canonicalize_chunks args=chunks,validity,dtype when=dtype:Utf8
VarBinView(pack_views(chunks, dtype, validity))
@ vortex::array::chunked::canonical::try_canonicalize_chunks args=chunks,validity,dtype when=dtype:Binary
VarBinView(pack_views(chunks, dtype, validity))
@ vortex::array::chunked::canonical::try_canonicalize_chunks args=chunks,validity,dtype when=dtype:Null
Null(NullArray.new(sum(each(len(elem(chunks))))))
@ vortex::array::chunked::canonical::try_canonicalize_chunks args=chunks,validity,dtype when=dtype:Extension
Extension(ExtensionArray.new(dtype@Extension.0, ChunkedArray.try_new(each(child(elem(chunks), 0, storage_dtype(elem(chunks)), len(elem(chunks)))), dtype(first(each(child(elem(chunks), 0, storage_dtype(elem(chunks)), len(elem(chunks)))))))))
'''
DECODE = r'''
@ vortex_alp::alp::compress::decompress args=array ptype=F32
or(patch_decoded(PrimitiveArray.from_vec(decompress_primitive(into_maybe_null_slice(encoded(array)), exponents(array)), validity(encoded(array))), patches(array)), PrimitiveArray.from_vec(decompress_primitive(into_maybe_null_slice(encoded(array)), exponents(array)), validity(encoded(array))))
@ vortex_alp::alp::compress::patch_decoded args=array,patches ptype=F32
patch(array, resolved_indices(TryFrom.try_from(patches)), maybe_null_slice(values(TryFrom.try_from(patches))))
@ vortex_alp::alp::compress::decompress_primitive args=values,exponents
each(decode_single(elem(values), exponents))
@ vortex_alp::alp::ALPFloat::decode_single args=v,exponents
from_int(v)*index(F10, exponents.f)*index(IF10, exponents.e)
@ vortex_alp::alp_rd::alp_rd_decode args=left,dict,width,right,pos,exc
each(from_bits(bitor(elem(right), shl(elem(loop{each(from_u16(index(Vec.with_capacity().extend_from_slice(dict), elem(left)))).push(from_u16(index(Vec.with_capacity().extend_from_slice(dict), elem(left)))) | seti(loop, elem(pos), from_u16(elem(exc)))}), width))))
@ vortex_fastlanes::bitpacking::compress::unpack args=array ptype=I32
or(patch_unpacked({PrimitiveArray.from_vec(unpack_primitive(packed_slice(array), bit_width(array), offset(array), len(array)), validity(array)) <- !is_signed_int(I32) | reinterpret_cast(PrimitiveArray.from_vec(unpack_primitive(packed_slice(array), bit_width(array), offset(array), len(array)), validity(array)), I32) <- is_signed_int(I32)}, patches(array)), {PrimitiveArray.from_vec(unpack_primitive(packed_slice(array), bit_width(array), offset(array), len(array)), validity(array)) <- !is_signed_int(I32) | reinterpret_cast(PrimitiveArray.from_vec(unpack_primitive(packed_slice(array), bit_width(array), offset(array), len(array)), validity(array)), I32) <- is_signed_int(I32)})
@ vortex_fastlanes::bitpacking::compress::patch_unpacked args=array,patches ptype=I32
patch(array, resolved_indices(TryFrom.try_from(patches)), maybe_null_slice(values(TryFrom.try_from(patches))))
@ vortex_fastlanes::bitpacking::compress::unpack_primitive args=packed,bit_width,offset,length under=all each=1 calls=unchecked_unpack#0,1 n=2
unchecked_unpack(bit_width, index(packed, 0..div([128*bit_width], size_of()))) <- !Eq(0, bit_width) & !Eq(0, offset)
unchecked_unpack(bit_width, index(packed, div([128*bit_width], size_of())*elem({0 <- Eq(0, offset) | 1 <- !Eq(0, offset)}..div([length + offset + 1023], 1024))..[div([128*bit_width], size_of())*elem({0 <- Eq(0, offset) | 1 <- !Eq(0, offset)}..div([length + offset + 1023], 1024)) + div([128*bit_width], size_of())])) <- !Eq(0, bit_width)
@ vortex_fastlanes::bitpacking::compress::unpack_primitive args=packed,bit_width,offset,length under=all calls=extend_from_slice#1 n=1
extend_from_slice(index(rep(zero(), 1024).unchecked_unpack(bit_width, index(packed, 0..div([128*bit_width], size_of()))), RangeFrom(offset))) <- !Eq(0, bit_width) & !Eq(0, offset)
@ vortex_fastlanes::bitpacking::compress::unpack_primitive args=packed,bit_width,offset,length under=all calls=truncate#1 n=1
truncate(length) <- !Eq(0, bit_width)
@ vortex_fastlanes::bitpacking::compress::unpack_single_primitive args=packed,bit_width,index
unchecked_unpack_single(bit_width, index(packed, div([128*bit_width], size_of())*div(index, 1024)..[div([128*bit_width], size_of())*div(index, 1024) + div([128*bit_width], size_of())]), rem(index, 1024))
@ vortex_fastlanes::delta::compress::delta_decompress args=array ptype=U32
PrimitiveArray.from_vec(index(decompress_primitive(maybe_null_slice(bases(array)), maybe_null_slice(deltas(array))), offset(array)..[len(array) + offset(array)]), validity(array))
@ vortex_fastlanes::delta::compress::decompress_primitive args=bases,deltas under=all calls=undelta#0 n=1
undelta(as_array(index(deltas, [1024*elem(0..div(len(deltas), 1024))]..[1024*elem(0..div(len(deltas), 1024)) + 1024]))) <- !Eq(0, div(len(deltas), 1024))
@ vortex_fastlanes::delta::compress::decompress_primitive args=bases,deltas under=all calls=copy_from_slice#1 n=1
copy_from_slice(index(bases, LANES*elem(0..div(len(deltas), 1024))..[LANES*elem(0..div(len(deltas), 1024)) + LANES])) <- !Eq(0, div(len(deltas), 1024))
@ vortex_fastlanes::delta::compress::decompress_primitive args=bases,deltas under=all calls=push#1 n=1
push(wrapping_add(elem(index(deltas, RangeFrom([1024*div(len(deltas), 1024)]))), loop{index(bases, LANES*div(len(deltas), 1024)) | loop})) <- !Eq(0, rem(len(deltas), 1024))
@ vortex_fastlanes::for::compress::decompress args=array ptype=I32
PrimitiveArray.from_vec(decompress_primitive(into_maybe_null_slice(reinterpret_cast(encoded(array), I32)), TryFrom.try_from(reference(array)), shift(array)), validity(reinterpret_cast(encoded(array), I32)))
@ vortex_fastlanes::for::compress::decompress_primitive args=values,min,shift
each(wrapping_add(elem(values), min)) <- Eq(0, shift)
each(wrapping_add(min, shl(elem(values), shift))) <- !Eq(0, shift)
@ vortex_runend::compress::runend_decode args=ends,values,validity,offset,length ptype=U32
PrimitiveArray.from_vec(runend_decode_primitive(maybe_null_slice(ends), maybe_null_slice(values), offset, length), validity)
@ vortex_runend::compress::runend_decode_primitive args=ends,values,offset,length
Vec.with_capacity()
loop.extend(takeN(repeat(elem(values)), [-len(loop) + min([elem(ends) - from_usize(offset)], from_usize(length))]))
@ vortex_runend::compress::runend_decode_primitive args=ends,values,offset,length under=all calls=extend#1 n=1
extend(takeN(repeat(elem(values)), [-len(loop.extend(loop)) + min([elem(ends) - from_usize(offset)], from_usize(length))]))
@ vortex_runend_bool::compress::runend_bool_decode args=ends,start,validity,offset,length ptype=U32
BoolArray.try_new(runend_bool_decode_slice(maybe_null_slice(ends), start, offset, length), validity)
@ vortex_runend_bool::compress::runend_bool_decode_slice args=ends,start,offset,length
BooleanBufferBuilder.new(length)
loop{BooleanBufferBuilder.new(length) | loop}.append_n([-len(loop{BooleanBufferBuilder.new(length) | loop}) + min([elem(ends) - from_usize(offset)], from_usize(length))], !and(!and(!Eq(0, rem(pos(ends), 2)), !start), !and(Eq(0, rem(pos(ends), 2)), start)))
@ vortex_zigzag::compress::zigzag_decode args=array ptype=U32
zigzag_decode_primitive(into_maybe_null_slice(array), validity(array))
@ vortex_zigzag::compress::zigzag_decode_primitive args=values,validity
PrimitiveArray.from_vec(each(decode(elem(values))), validity)
@ vortex_datetime_parts::compute::decode_to_temporal args=array
new_timestamp(PrimitiveArray.from_vec(each([86400*elem(maybe_null_slice(days(array)))*{1 <- time_unit(TryFrom.try_from(dtype(array)@Extension.0)) is S | 1000 <- time_unit(TryFrom.try_from(dtype(array)@Extension.0)) is Ms | 1000000 <- time_unit(TryFrom.try_from(dtype(array)@Extension.0)) is Us | 1000000000 <- time_unit(TryFrom.try_from(dtype(array)@Extension.0)) is Ns} + elem(maybe_null_slice(seconds(array)))*{1 <- time_unit(TryFrom.try_from(dtype(array)@Extension.0)) is S | 1000 <- time_unit(TryFrom.try_from(dtype(array)@Extension.0)) is Ms | 1000000 <- time_unit(TryFrom.try_from(dtype(array)@Extension.0)) is Us | 1000000000 <- time_unit(TryFrom.try_from(dtype(array)@Extension.0)) is Ns} + elem(maybe_null_slice(subsecond(array)))]), validity(array)), time_unit(TryFrom.try_from(dtype(array)@Extension.0)), time_zone(TryFrom.try_from(dtype(array)@Extension.0)))
@ vortex::array::sparse::flatten::canonicalize_sparse_bools args=values,indices,len,fill,validity
Bool(BoolArray.from_vec(loop{from_elem(and(!is_null(fill), TryFrom.try_from(fill)), len) | seti(loop, elem(indices), value(values, pos(indices)))}, validity))
@ vortex::array::sparse::flatten::canonicalize_sparse_primitives args=values,indices,len,fill,validity
Primitive(PrimitiveArray.from_vec(loop{from_elem({default(T) <- is_null(fill) | try_into(fill) <- !is_null(fill)}, len) | seti(loop, elem(indices), elem(values))}, validity))
@ vortex::array::sparse::flatten::canonicalize_sparse_validity args=validity,indices,len,fill under=all calls=append_n n=1
append_n(BooleanBufferBuilder.new(len), len, !is_null(fill))
@ vortex::array::sparse::flatten::canonicalize_sparse_validity args=validity,indices,len,fill under=all calls=set_bit n=1
set_bit(loop{BooleanBufferBuilder.new(len).append_n(len, !is_null(fill)) | loop.set_bit(elem(indices), is_valid(validity, pos(indices)))}, elem(indices), is_valid(validity, pos(indices)))
@ vortex::array::sparse::flatten::canonicalize_sparse_validity args=validity,indices,len,fill when=validity:NonNullable
NonNullable
@ vortex::array::chunked::canonical::pack_bools args=chunks,validity
BoolArray.try_new(finish(loop{BooleanBufferBuilder.new(sum(each(len(elem(chunks))))) | loop.append_buffer(boolean_buffer(elem(chunks)))}), validity)
@ vortex::array::chunked::canonical::pack_primitives args=chunks,ptype,validity
PrimitiveArray.new(Arrow(loop{MutableBuffer.with_capacity() | loop.extend_from_slice(buffer(elem(chunks))@*)}), ptype, validity)
@ vortex::array::chunked::canonical::pack_bools args=chunks,validity under=all calls=append_buffer#1 voc=boolean_buffer n=1
append_buffer(boolean_buffer(elem(chunks)))
@ vortex::array::chunked::canonical::pack_primitives args=chunks,ptype,validity under=all calls=extend_from_slice#1 voc=buffer n=1
extend_from_slice(buffer(elem(chunks))@*)
@ vortex_runend_bool::compress::runend_bool_decode_slice args=ends,start,offset,length under=all calls=append_n#1,2 n=1
append_n([-len(loop{BooleanBufferBuilder.new(length) | loop.append_n(loop, !and(!and(!Eq(0, rem(pos(ends), 2)), !start), !and(Eq(0, rem(pos(ends), 2)), start)))}) + min([elem(ends) - from_usize(offset)], from_usize(length))], !and(!and(!Eq(0, rem(pos(ends), 2)), !start), !and(Eq(0, rem(pos(ends), 2)), start)))
@ vortex::array::chunked::canonical::swizzle_struct_chunks args=chunks,validity,struct
StructArray.try_new(struct.names, each(ChunkedArray.try_new(each(field(as_struct_array_unchecked(elem(chunks)), pos(struct.dtypes))), elem(struct.dtypes))), sum(each(len(elem(chunks)))), validity)
@ vortex::array::constant::canonical::canonical_byte_view args=bytes,dtype,len
or(VarBinViewArray.try_new(PrimitiveArray.new(Arrow(finish(BufferBuilder.new(len).append_n(len, make_view(bytes, 0, 0)))), U8, NonNullable), {Vec.new() <- !Lt(11, len(bytes)) | Vec.new().push(PrimitiveArray.new(Arrow(bytes), U8, NonNullable)) <- Lt(11, len(bytes))}, dtype, {AllValid <- nullability(dtype) is Nullable | nullability(dtype) <- nullability(dtype) is NonNullable}), VarBinViewArray.try_new(ConstantArray.new(0, [16*len]), Vec.new(), dtype, AllInvalid))
@ <vortex::array::primitive::PrimitiveArray>::from_vec args=self,a,b
PrimitiveArray.new(Arrow(transmute(self)), PTYPE, a)
@ <vortex::array::primitive::PrimitiveArray>::into_maybe_null_slice args=self,a,b
or(into_vec(into_buffer(self)), align_to(into_vec(into_buffer(self))@Err.0@*).1)
@ <vortex::array::primitive::PrimitiveArray>::patch args=self,a,b
PrimitiveArray.from_vec(loop{into_maybe_null_slice(self) | seti(loop, elem(a), elem(b))}, validity(self))
@ <vortex::array::primitive::PrimitiveArray>::reinterpret_cast args=self,a,b
PrimitiveArray.new(buffer(self), a, validity(self)) <- !Eq(a, ptype(self))
self <- Eq(a, ptype(self))
@ vortex::array::chunked::canonical::pack_views args=chunks,dtype,validity voc=binary_views,buffers,new_view,is_inlined,as_u128,as_view,buffer_index,offset,prefix under=all calls=new_view n=1
new_view(len(elem(binary_views(elem(chunks)))), prefix(as_view(elem(binary_views(elem(chunks))))), [as_u32(len(each(elem(buffers(elem(chunks)))))) + buffer_index(as_view(elem(binary_views(elem(chunks)))))], offset(as_view(elem(binary_views(elem(chunks)))))) <- !is_inlined(elem(binary_views(elem(chunks))))
@ vortex::array::chunked::canonical::pack_views args=chunks,dtype,validity voc=binary_views,buffers,new_view,is_inlined,as_u128,as_view,buffer_index,offset,prefix under=all each=1 calls=push#1 n=3
push(as_u128(elem(binary_views(elem(chunks))))) <- is_inlined(elem(binary_views(elem(chunks))))
push(as_u128(new_view(len(elem(binary_views(elem(chunks)))), prefix(as_view(elem(binary_views(elem(chunks))))), [as_u32(len(each(elem(buffers(elem(chunks)))))) + buffer_index(as_view(elem(binary_views(elem(chunks)))))], offset(as_view(elem(binary_views(elem(chunks)))))))) <- !is_inlined(elem(binary_views(elem(chunks))))
push(elem(buffers(elem(chunks))))
'''
def run(c):
    spec.run_tables(c, (('canonical', CANON), ('decoder', DECODE),), 'must decode to the values, type and nulls the array denotes', r'IntoCanonical>::into_canonical$', ('canonical', 50))
