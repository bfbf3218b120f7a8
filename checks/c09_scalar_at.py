from lib import *
import spec
ID = 'C09'
TITLE = 'Reading one value gives the value at that position'
RULE = "the normal form of scalar_at(), of every ScalarAtFn implementation and of the position helpers behind them is compared with the form that denotes the value of the array at the given position: bounds and validity are tested first, row-aligned components are read at the same position, per-array components as a whole, positions in sorted components are found with the side that makes run ends exclusive, patches override the encoded value exactly where they are valid, and the scalar carries the array's type"
ENTRY = r'''
@ vortex::compute::unary::scalar_at::scalar_at args=array,index errs=1
Scalar(dtype(array), Null) <- !is_valid(array, index) & Lt(index, len(array))
scalar_at(scalar_at(array), index) <- Lt(index, len(array)) & is_valid(array, index)
@ vortex::compute::unary::scalar_at::scalar_at_unchecked args=array,index
scalar_at_unchecked(scalar_at(array), index)
'''
KERNELS = r'''
@ <vortex::array::bool::BoolArray as vortex::compute::unary::scalar_at::ScalarAtFn>::scalar_at args=self,index ptype=I32 inl=scalar_at,scalar_at_unchecked
Scalar(Bool(nullability(dtype(self))), Bool(value_unchecked(boolean_buffer(self), index)))
@ <vortex::array::bool::BoolArray as vortex::compute::unary::scalar_at::ScalarAtFn>::scalar_at_unchecked args=self,index ptype=I32 inl=scalar_at,scalar_at_unchecked
Scalar(Bool(nullability(dtype(self))), Bool(value_unchecked(boolean_buffer(self), index)))
@ <vortex::array::chunked::ChunkedArray as vortex::compute::unary::scalar_at::ScalarAtFn>::scalar_at args=self,index ptype=I32 inl=scalar_at,scalar_at_unchecked
scalar_at(chunk(self, find_chunk_idx(self, index).0), find_chunk_idx(self, index).1)
@ <vortex::array::chunked::ChunkedArray as vortex::compute::unary::scalar_at::ScalarAtFn>::scalar_at_unchecked args=self,index ptype=I32 inl=scalar_at,scalar_at_unchecked
scalar_at_unchecked(chunk(self, find_chunk_idx(self, index).0), find_chunk_idx(self, index).1)
@ <vortex::array::constant::ConstantArray as vortex::compute::unary::scalar_at::ScalarAtFn>::scalar_at args=self,index ptype=I32 inl=scalar_at,scalar_at_unchecked
owned_scalar(self)
@ <vortex::array::constant::ConstantArray as vortex::compute::unary::scalar_at::ScalarAtFn>::scalar_at_unchecked args=self,index ptype=I32 inl=scalar_at,scalar_at_unchecked
owned_scalar(self)
@ <vortex::array::extension::ExtensionArray as vortex::compute::unary::scalar_at::ScalarAtFn>::scalar_at args=self,index ptype=I32 inl=scalar_at,scalar_at_unchecked
Scalar(Extension(dtype(self)@Extension.0, nullability(dtype(scalar_at(storage(self), index)))), scalar_at(storage(self), index).value)
@ <vortex::array::extension::ExtensionArray as vortex::compute::unary::scalar_at::ScalarAtFn>::scalar_at_unchecked args=self,index ptype=I32 inl=scalar_at,scalar_at_unchecked
Scalar(Extension(dtype(self)@Extension.0, nullability(dtype(scalar_at_unchecked(storage(self), index)))), scalar_at_unchecked(storage(self), index).value)
@ <vortex::array::null::NullArray as vortex::compute::unary::scalar_at::ScalarAtFn>::scalar_at args=self,index ptype=I32 inl=scalar_at,scalar_at_unchecked
Scalar(Null, Null)
@ <vortex::array::null::NullArray as vortex::compute::unary::scalar_at::ScalarAtFn>::scalar_at_unchecked args=self,index ptype=I32 inl=scalar_at,scalar_at_unchecked
Scalar(Null, Null)
@ <vortex::array::primitive::PrimitiveArray as vortex::compute::unary::scalar_at::ScalarAtFn>::scalar_at args=self,index ptype=I32 inl=scalar_at,scalar_at_unchecked
Scalar(Primitive(I32, nullability(dtype(self))), Primitive(I32(index(maybe_null_slice(self), index))))
@ <vortex::array::primitive::PrimitiveArray as vortex::compute::unary::scalar_at::ScalarAtFn>::scalar_at_unchecked args=self,index ptype=I32 inl=scalar_at,scalar_at_unchecked
Scalar(Primitive(I32, nullability(dtype(self))), Primitive(I32(index(maybe_null_slice(self), index))))
@ <vortex::array::sparse::SparseArray as vortex::compute::unary::scalar_at::ScalarAtFn>::scalar_at args=self,index ptype=I32 inl=scalar_at,scalar_at_unchecked
{fill_scalar(self) <- search_index(self, index) is NotFound | scalar_at_unchecked(values(self), search_index(self, index)@Found.0) <- search_index(self, index) is Found}
@ <vortex::array::sparse::SparseArray as vortex::compute::unary::scalar_at::ScalarAtFn>::scalar_at_unchecked args=self,index ptype=I32 inl=scalar_at,scalar_at_unchecked
fill_scalar(self) <- search_index(self, index) is NotFound
scalar_at_unchecked(values(self), search_index(self, index)@Found.0) <- search_index(self, index) is Found
@ <vortex::array::struct_::StructArray as vortex::compute::unary::scalar_at::ScalarAtFn>::scalar_at args=self,index ptype=I32 inl=scalar_at,scalar_at_unchecked
Scalar(dtype(self), List(each(into_value(scalar_at(elem(children(self)), index)))))
@ <vortex::array::struct_::StructArray as vortex::compute::unary::scalar_at::ScalarAtFn>::scalar_at_unchecked args=self,index ptype=I32 inl=scalar_at,scalar_at_unchecked
Scalar(dtype(self), List(each(into_value(scalar_at_unchecked(elem(children(self)), index)))))
@ <vortex::array::varbin::VarBinArray as vortex::compute::unary::scalar_at::ScalarAtFn>::scalar_at args=self,index ptype=I32 inl=scalar_at,scalar_at_unchecked
varbin_scalar(bytes_at(self, index), dtype(self))
@ <vortex::array::varbin::VarBinArray as vortex::compute::unary::scalar_at::ScalarAtFn>::scalar_at_unchecked args=self,index ptype=I32 inl=scalar_at,scalar_at_unchecked
varbin_scalar(bytes_at(self, index), dtype(self))
@ <vortex::array::varbinview::VarBinViewArray as vortex::compute::unary::scalar_at::ScalarAtFn>::scalar_at args=self,index ptype=I32 inl=scalar_at,scalar_at_unchecked
varbin_scalar(Arrow(Buffer.from_vec(bytes_at(self, index))), dtype(self))
@ <vortex::array::varbinview::VarBinViewArray as vortex::compute::unary::scalar_at::ScalarAtFn>::scalar_at_unchecked args=self,index ptype=I32 inl=scalar_at,scalar_at_unchecked
varbin_scalar(Arrow(Buffer.from_vec(bytes_at(self, index))), dtype(self))
@ <vortex_alp::alp_rd::array::ALPRDArray as vortex::compute::unary::scalar_at::ScalarAtFn>::scalar_at args=self,index ptype=I32 inl=scalar_at,scalar_at_unchecked
Scalar(Primitive(F32, nullability(dtype(self))), Primitive(F32(f32.from_bits(bitor(TryFrom.try_from(scalar_at(right_parts(self), index)), shl({TryFrom.try_from(scalar_at(left_parts_exceptions(self), index)) <- is_valid(left_parts_exceptions(self), index) & left_parts_exceptions(self) is Some | index(left_parts_dict(self), TryFrom.try_from(scalar_at(left_parts(self), index))) <- !is_valid(left_parts_exceptions(self), index) | index(left_parts_dict(self), TryFrom.try_from(scalar_at(left_parts(self), index))) <- left_parts_exceptions(self) is None}, right_bit_width(self))))))) <- is_f32(self)
Scalar(Primitive(F64, nullability(dtype(self))), Primitive(F64(f64.from_bits(bitor(TryFrom.try_from(scalar_at(right_parts(self), index)), shl({TryFrom.try_from(scalar_at(left_parts_exceptions(self), index)) <- is_valid(left_parts_exceptions(self), index) & left_parts_exceptions(self) is Some | index(left_parts_dict(self), TryFrom.try_from(scalar_at(left_parts(self), index))) <- !is_valid(left_parts_exceptions(self), index) | index(left_parts_dict(self), TryFrom.try_from(scalar_at(left_parts(self), index))) <- left_parts_exceptions(self) is None}, right_bit_width(self))))))) <- !is_f32(self)
@ <vortex_alp::alp_rd::array::ALPRDArray as vortex::compute::unary::scalar_at::ScalarAtFn>::scalar_at_unchecked args=self,index ptype=I32 inl=scalar_at,scalar_at_unchecked
{Scalar(Primitive(F32, nullability(dtype(self))), Primitive(F32(f32.from_bits(bitor(TryFrom.try_from(scalar_at(right_parts(self), index)), shl({TryFrom.try_from(scalar_at(left_parts_exceptions(self), index)) <- is_valid(left_parts_exceptions(self), index) & left_parts_exceptions(self) is Some | index(left_parts_dict(self), TryFrom.try_from(scalar_at(left_parts(self), index))) <- !is_valid(left_parts_exceptions(self), index) | index(left_parts_dict(self), TryFrom.try_from(scalar_at(left_parts(self), index))) <- left_parts_exceptions(self) is None}, right_bit_width(self))))))) <- is_f32(self) | Scalar(Primitive(F64, nullability(dtype(self))), Primitive(F64(f64.from_bits(bitor(TryFrom.try_from(scalar_at(right_parts(self), index)), shl({TryFrom.try_from(scalar_at(left_parts_exceptions(self), index)) <- is_valid(left_parts_exceptions(self), index) & left_parts_exceptions(self) is Some | index(left_parts_dict(self), TryFrom.try_from(scalar_at(left_parts(self), index))) <- !is_valid(left_parts_exceptions(self), index) | index(left_parts_dict(self), TryFrom.try_from(scalar_at(left_parts(self), index))) <- left_parts_exceptions(self) is None}, right_bit_width(self))))))) <- !is_f32(self)}
@ <vortex_bytebool::array::ByteBoolArray as vortex::compute::unary::scalar_at::ScalarAtFn>::scalar_at args=self,index ptype=I32 inl=scalar_at,scalar_at_unchecked
Scalar(Bool(nullability(dtype(self))), Bool(Eq(1, index(buffer(self)@*, index))))
@ <vortex_bytebool::array::ByteBoolArray as vortex::compute::unary::scalar_at::ScalarAtFn>::scalar_at_unchecked args=self,index ptype=I32 inl=scalar_at,scalar_at_unchecked
Scalar(Bool(nullability(dtype(self))), Bool(Eq(1, index(buffer(self)@*, index))))
@ <vortex_dict::array::DictArray as vortex::compute::unary::scalar_at::ScalarAtFn>::scalar_at args=self,index ptype=I32 inl=scalar_at,scalar_at_unchecked
scalar_at_unchecked(values(self), TryFrom.try_from(scalar_at(codes(self), index)))
@ <vortex_dict::array::DictArray as vortex::compute::unary::scalar_at::ScalarAtFn>::scalar_at_unchecked args=self,index ptype=I32 inl=scalar_at,scalar_at_unchecked
scalar_at_unchecked(values(self), TryFrom.try_from(scalar_at_unchecked(codes(self), index)))
@ <vortex_fastlanes::bitpacking::BitPackedArray as vortex::compute::unary::scalar_at::ScalarAtFn>::scalar_at args=self,index ptype=I32 inl=scalar_at,scalar_at_unchecked
cast(scalar_at_unchecked(patches(self), index), dtype(self)) <- is_valid(patches(self), index) & patches(self) is Some
cast(unpack_single(self, index), dtype(self)) <- !is_valid(patches(self), index)
cast(unpack_single(self, index), dtype(self)) <- patches(self) is None
@ <vortex_fastlanes::bitpacking::BitPackedArray as vortex::compute::unary::scalar_at::ScalarAtFn>::scalar_at_unchecked args=self,index ptype=I32 inl=scalar_at,scalar_at_unchecked
{cast(scalar_at_unchecked(patches(self), index), dtype(self)) <- is_valid(patches(self), index) & patches(self) is Some | cast(unpack_single(self, index), dtype(self)) <- !is_valid(patches(self), index) | cast(unpack_single(self, index), dtype(self)) <- patches(self) is None}
@ <vortex_fastlanes::delta::DeltaArray as vortex::compute::unary::scalar_at::ScalarAtFn>::scalar_at args=self,index ptype=I32 inl=scalar_at,scalar_at_unchecked
scalar_at(slice(self, index, [index + 1]), 0)
@ <vortex_fastlanes::delta::DeltaArray as vortex::compute::unary::scalar_at::ScalarAtFn>::scalar_at_unchecked args=self,index ptype=I32 inl=scalar_at,scalar_at_unchecked
scalar_at_unchecked(slice(self, index, [index + 1]), 0)
@ <vortex_fastlanes::for::FoRArray as vortex::compute::unary::scalar_at::ScalarAtFn>::scalar_at args=self,index ptype=I32 inl=scalar_at,scalar_at_unchecked
or(Scalar(Primitive(I32, nullability(dtype(self))), Primitive(I32(wrapping_add(as_primitive(as_pvalue(reference(self))), shl(as_primitive(reinterpret_cast(as_pvalue(into_value(scalar_at_unchecked(encoded(self), index))), I32)), shift(self)))))), Scalar(dtype(self), Null))
@ <vortex_fastlanes::for::FoRArray as vortex::compute::unary::scalar_at::ScalarAtFn>::scalar_at_unchecked args=self,index ptype=I32 inl=scalar_at,scalar_at_unchecked
or(Scalar(Primitive(I32, nullability(dtype(self))), Primitive(I32(wrapping_add(as_primitive(as_pvalue(reference(self))), shl(as_primitive(reinterpret_cast(as_pvalue(into_value(scalar_at_unchecked(encoded(self), index))), I32)), shift(self)))))), Scalar(dtype(self), Null))
@ <vortex_roaring::boolean::RoaringBoolArray as vortex::compute::unary::scalar_at::ScalarAtFn>::scalar_at args=self,index ptype=I32 inl=scalar_at,scalar_at_unchecked
Scalar(Bool(NonNullable), Bool(contains(bitmap(self), as_u32(index))))
@ <vortex_roaring::boolean::RoaringBoolArray as vortex::compute::unary::scalar_at::ScalarAtFn>::scalar_at_unchecked args=self,index ptype=I32 inl=scalar_at,scalar_at_unchecked
Scalar(Bool(NonNullable), Bool(contains(bitmap(self), as_u32(index))))
@ <vortex_runend::array::RunEndArray as vortex::compute::unary::scalar_at::ScalarAtFn>::scalar_at args=self,index ptype=I32 inl=scalar_at,scalar_at_unchecked
scalar_at(values(self), find_physical_index(self, index))
@ <vortex_runend::array::RunEndArray as vortex::compute::unary::scalar_at::ScalarAtFn>::scalar_at_unchecked args=self,index ptype=I32 inl=scalar_at,scalar_at_unchecked
scalar_at_unchecked(values(self), find_physical_index(self, index))
@ <vortex_runend_bool::array::RunEndBoolArray as vortex::compute::unary::scalar_at::ScalarAtFn>::scalar_at args=self,index ptype=I32 inl=scalar_at,scalar_at_unchecked
Scalar(Bool(nullability(dtype(self))), Bool(!and(!and(!Eq(0, rem(find_physical_index(self, index), 2)), !start(self)), !and(Eq(0, rem(find_physical_index(self, index), 2)), start(self)))))
@ <vortex_runend_bool::array::RunEndBoolArray as vortex::compute::unary::scalar_at::ScalarAtFn>::scalar_at_unchecked args=self,index ptype=I32 inl=scalar_at,scalar_at_unchecked
Scalar(Bool(nullability(dtype(self))), Bool(!and(!and(!Eq(0, rem(find_physical_index(self, index), 2)), !start(self)), !and(Eq(0, rem(find_physical_index(self, index), 2)), start(self)))))
@ <vortex_alp::alp::array::ALPArray as vortex::compute::unary::scalar_at::ScalarAtFn>::scalar_at args=self,index ptype=F32 inl=scalar_at,scalar_at_unchecked
{Scalar(Primitive(F32, nullability(dtype(self))), Primitive(F32(decode_single(TryFrom.try_from(scalar_at_unchecked(encoded(self), index)), exponents(self))))) <- !is_valid(patches(self), index) | Scalar(Primitive(F32, nullability(dtype(self))), Primitive(F32(decode_single(TryFrom.try_from(scalar_at_unchecked(encoded(self), index)), exponents(self))))) <- patches(self) is None | cast(scalar_at_unchecked(patches(self), index), dtype(self)) <- is_valid(patches(self), index) & patches(self) is Some}
@ <vortex_alp::alp::array::ALPArray as vortex::compute::unary::scalar_at::ScalarAtFn>::scalar_at_unchecked args=self,index ptype=F32 inl=scalar_at,scalar_at_unchecked
Scalar(Primitive(F32, nullability(dtype(self))), Primitive(F32(decode_single(TryFrom.try_from(scalar_at_unchecked(encoded(self), index)), exponents(self))))) <- !is_valid(patches(self), index)
Scalar(Primitive(F32, nullability(dtype(self))), Primitive(F32(decode_single(TryFrom.try_from(scalar_at_unchecked(encoded(self), index)), exponents(self))))) <- patches(self) is None
cast(scalar_at_unchecked(patches(self), index), dtype(self)) <- is_valid(patches(self), index) & patches(self) is Some
@ <vortex_roaring::integer::RoaringIntArray as vortex::compute::unary::scalar_at::ScalarAtFn>::scalar_at args=self,index under=all calls=select n=1
select(owned_bitmap(self), as_u32(index))
@ <vortex_zigzag::array::ZigZagArray as vortex::compute::unary::scalar_at::ScalarAtFn>::scalar_at args=self,index inl=scalar_at,scalar_at_unchecked
Scalar(Primitive(I16, nullability(dtype(self))), Primitive(I16(decode(as_primitive(TryFrom.try_from(scalar_at_unchecked(encoded(self), index)).pvalue))))) <- !is_null(scalar_at_unchecked(encoded(self), index)) & TryFrom.try_from(scalar_at_unchecked(encoded(self), index)).ptype is U16 & ptype(TryFrom.try_from(scalar_at_unchecked(encoded(self), index))) is U16
Scalar(Primitive(I32, nullability(dtype(self))), Primitive(I32(decode(as_primitive(TryFrom.try_from(scalar_at_unchecked(encoded(self), index)).pvalue))))) <- !is_null(scalar_at_unchecked(encoded(self), index)) & TryFrom.try_from(scalar_at_unchecked(encoded(self), index)).ptype is U32 & ptype(TryFrom.try_from(scalar_at_unchecked(encoded(self), index))) is U32
Scalar(Primitive(I64, nullability(dtype(self))), Primitive(I64(decode(as_primitive(TryFrom.try_from(scalar_at_unchecked(encoded(self), index)).pvalue))))) <- !is_null(scalar_at_unchecked(encoded(self), index)) & TryFrom.try_from(scalar_at_unchecked(encoded(self), index)).ptype is U64 & ptype(TryFrom.try_from(scalar_at_unchecked(encoded(self), index))) is U64
Scalar(Primitive(I8, nullability(dtype(self))), Primitive(I8(decode(as_primitive(TryFrom.try_from(scalar_at_unchecked(encoded(self), index)).pvalue))))) <- !is_null(scalar_at_unchecked(encoded(self), index)) & TryFrom.try_from(scalar_at_unchecked(encoded(self), index)).ptype is U8 & ptype(TryFrom.try_from(scalar_at_unchecked(encoded(self), index))) is U8
reinterpret_cast(scalar_at_unchecked(encoded(self), index), ptype(self)) <- is_null(scalar_at_unchecked(encoded(self), index))
@ <vortex_zigzag::array::ZigZagArray as vortex::compute::unary::scalar_at::ScalarAtFn>::scalar_at_unchecked args=self,index inl=scalar_at,scalar_at_unchecked
{Scalar(Primitive(I16, nullability(dtype(self))), Primitive(I16(decode(as_primitive(TryFrom.try_from(scalar_at_unchecked(encoded(self), index)).pvalue))))) <- !is_null(scalar_at_unchecked(encoded(self), index)) & TryFrom.try_from(scalar_at_unchecked(encoded(self), index)).ptype is U16 & ptype(TryFrom.try_from(scalar_at_unchecked(encoded(self), index))) is U16 | Scalar(Primitive(I32, nullability(dtype(self))), Primitive(I32(decode(as_primitive(TryFrom.try_from(scalar_at_unchecked(encoded(self), index)).pvalue))))) <- !is_null(scalar_at_unchecked(encoded(self), index)) & TryFrom.try_from(scalar_at_unchecked(encoded(self), index)).ptype is U32 & ptype(TryFrom.try_from(scalar_at_unchecked(encoded(self), index))) is U32 | Scalar(Primitive(I64, nullability(dtype(self))), Primitive(I64(decode(as_primitive(TryFrom.try_from(scalar_at_unchecked(encoded(self), index)).pvalue))))) <- !is_null(scalar_at_unchecked(encoded(self), index)) & TryFrom.try_from(scalar_at_unchecked(encoded(self), index)).ptype is U64 & ptype(TryFrom.try_from(scalar_at_unchecked(encoded(self), index))) is U64 | Scalar(Primitive(I8, nullability(dtype(self))), Primitive(I8(decode(as_primitive(TryFrom.try_from(scalar_at_unchecked(encoded(self), index)).pvalue))))) <- !is_null(scalar_at_unchecked(encoded(self), index)) & TryFrom.try_from(scalar_at_unchecked(encoded(self), index)).ptype is U8 & ptype(TryFrom.try_from(scalar_at_unchecked(encoded(self), index))) is U8 | reinterpret_cast(scalar_at_unchecked(encoded(self), index), ptype(self)) <- is_null(scalar_at_unchecked(encoded(self), index))}
@ <vortex_fsst::array::FSSTArray as vortex::compute::unary::scalar_at::ScalarAtFn>::scalar_at args=self,index voc=find_physical_index,find_chunk_idx,cast,reinterpret_cast,unpack_single,varbin_scalar,bytes_at,scalar_at_unchecked,search_index,scalar_value,as_buffer,with_decompressor,as_slice inl=scalar_at,scalar_at_unchecked
FSSTArray.with_decompressor(self, fn(varbin_scalar(Arrow(Buffer.from_vec(decompress($0, as_buffer(scalar_at_unchecked(codes(self), index).value)))), dtype(self))))
@ <vortex_fsst::array::FSSTArray as vortex::compute::unary::scalar_at::ScalarAtFn>::scalar_at_unchecked args=self,index voc=find_physical_index,find_chunk_idx,cast,reinterpret_cast,unpack_single,varbin_scalar,bytes_at,scalar_at_unchecked,search_index,scalar_value,as_buffer,with_decompressor,as_slice inl=scalar_at,scalar_at_unchecked
FSSTArray.with_decompressor(self, fn(varbin_scalar(Arrow(Buffer.from_vec(decompress($0, as_buffer(scalar_at_unchecked(codes(self), index).value)))), dtype(self))))
@ <vortex_datetime_parts::array::DateTimePartsArray as vortex::compute::unary::scalar_at::ScalarAtFn>::scalar_at args=self,index under=all each=1 calls=scalar_at n=3
scalar_at(days(self), index) <- TryFrom.try_from(dtype(self)@Extension.0)@Timestamp.0 is Ms|Ns|S|Us & is_valid(self, index)
scalar_at(seconds(self), index) <- TryFrom.try_from(dtype(self)@Extension.0)@Timestamp.0 is Ms|Ns|S|Us & is_valid(self, index)
scalar_at(subsecond(self), index) <- TryFrom.try_from(dtype(self)@Extension.0)@Timestamp.0 is Ms|Ns|S|Us & is_valid(self, index)
@ <vortex_datetime_parts::array::DateTimePartsArray as vortex::compute::unary::scalar_at::ScalarAtFn>::scalar_at args=self,index voc=extension under=1 each=1 calls=extension n=2
extension(dtype(self)@Extension.0, Scalar(Primitive(I64, dtype(self)@Extension.1), Null)) <- !is_valid(self, index)
extension(dtype(self)@Extension.0, Scalar(Primitive(I64, dtype(self)@Extension.1), Primitive(I64([86400*TryFrom.try_from(scalar_at(days(self), index))*{1 <- TryFrom.try_from(dtype(self)@Extension.0)@Timestamp.0 is S | 1000 <- TryFrom.try_from(dtype(self)@Extension.0)@Timestamp.0 is Ms | 1000000 <- TryFrom.try_from(dtype(self)@Extension.0)@Timestamp.0 is Us | 1000000000 <- TryFrom.try_from(dtype(self)@Extension.0)@Timestamp.0 is Ns} + TryFrom.try_from(scalar_at(seconds(self), index))*{1 <- TryFrom.try_from(dtype(self)@Extension.0)@Timestamp.0 is S | 1000 <- TryFrom.try_from(dtype(self)@Extension.0)@Timestamp.0 is Ms | 1000000 <- TryFrom.try_from(dtype(self)@Extension.0)@Timestamp.0 is Us | 1000000000 <- TryFrom.try_from(dtype(self)@Extension.0)@Timestamp.0 is Ns} + TryFrom.try_from(scalar_at(subsecond(self), index))])))) <- TryFrom.try_from(dtype(self)@Extension.0)@Timestamp.0 is Ms|Ns|S|Us & is_valid(self, index)
'''
PATCHES = r'''
@ <vortex_alp::alp::array::ALPArray as vortex::compute::unary::scalar_at::ScalarAtFn>::scalar_at_unchecked args=self,index ptype=F32 calls=scalar_at_unchecked under=all each=1 voc=find_physical_index,find_chunk_idx,cast,reinterpret_cast,unpack_single,varbin_scalar,bytes_at,scalar_at_unchecked,search_index,scalar_value,decode_single n=2
scalar_at_unchecked(encoded(self), index) <- !is_valid(patches(self), index)
scalar_at_unchecked(encoded(self), index) <- patches(self) is None
scalar_at_unchecked(patches(self), index) <- is_valid(patches(self), index) & patches(self) is Some
@ <vortex_alp::alp_rd::array::ALPRDArray as vortex::compute::unary::scalar_at::ScalarAtFn>::scalar_at args=self,index calls=scalar_at under=all each=1 n=4
scalar_at(left_parts(self), index) <- !is_valid(left_parts_exceptions(self), index)
scalar_at(left_parts(self), index) <- left_parts_exceptions(self) is None
scalar_at(left_parts_exceptions(self), index) <- is_valid(left_parts_exceptions(self), index) & left_parts_exceptions(self) is Some
scalar_at(right_parts(self), index) <- TryFrom.try_from(dtype(self)) is F16|F64|I16|I32|I64|I8|U16|U32|U64|U8
scalar_at(right_parts(self), index) <- TryFrom.try_from(dtype(self)) is F32
@ <vortex_fastlanes::bitpacking::BitPackedArray as vortex::compute::unary::scalar_at::ScalarAtFn>::scalar_at args=self,index calls=scalar_at_unchecked under=all voc=cast,unpack_single n=1
scalar_at_unchecked(patches(self), index) <- is_valid(patches(self), index) & patches(self) is Some
'''
POSITION = r'''
@ <vortex::array::chunked::ChunkedArray>::find_chunk_idx args=self,index
(saturating_sub(to_ends_index(search_sorted(chunk_offsets(self), index, Right), [nchunks(self) + 1]), 1), [-TryFrom.try_from(scalar_at(chunk_offsets(self), saturating_sub(to_ends_index(search_sorted(chunk_offsets(self), index, Right), [nchunks(self) + 1]), 1))) + index])
@ <vortex_runend::array::RunEndArray>::find_physical_index args=self,index
to_ends_index(search_sorted(ends(self), [index + offset(self)], Right), len(ends(self)))
@ <vortex_runend_bool::array::RunEndBoolArray>::find_physical_index args=self,index
to_ends_index(search_sorted(ends(self), [index + offset(self)], Right), len(ends(self)))
@ <vortex::array::sparse::SparseArray>::search_index args=self,index
search_sorted(indices(self), [index + indices_offset(self)], Left)
@ <vortex::array::varbin::VarBinArray>::bytes_at args=self,index
buffer(slice(bytes(self), offset_at(self, index), offset_at(self, [index + 1])))
@ <vortex::array::varbin::VarBinArray>::offset_at args=self,index
or(index(maybe_null_slice(TryFrom.try_from(offsets(self))), index), TryFrom.try_from(scalar_at(offsets(self), index)))
@ <vortex::array::varbinview::VarBinViewArray>::bytes_at args=self,index
index(view_at(self, index).inlined.data, 0..view_at(self, index).inlined.size) <- !Lt(12, len(view_at(self, index)))
maybe_null_slice(slice(buffer(self, view_at(self, index)._ref.buffer_index), view_at(self, index)._ref.offset, [len(view_at(self, index)) + view_at(self, index)._ref.offset])) <- Lt(12, len(view_at(self, index)))
@ <vortex::array::varbinview::VarBinViewArray>::view_at args=self,index voc=copy_from_slice under=all calls=slice n=1
slice(views(self), [16*index], [16*index + 16])
@ <vortex::array::varbinview::VarBinViewArray>::buffer args=self,index
child(self, [index + 1], Primitive(U8, NonNullable), index(buffer_lens(self), index))
@ <vortex::array::constant::ConstantArray>::owned_scalar args=self
Scalar(dtype(self), scalar_value(self))
@ <vortex::array::sparse::SparseArray>::fill_scalar args=self
Scalar(dtype(self), fill_value(self))
@ <vortex_fsst::array::FSSTArray>::with_decompressor args=self,apply under=all calls=new n=1
new(transmute(maybe_null_slice(symbols(self))), maybe_null_slice(symbol_lengths(self)))
@ vortex_fastlanes::bitpacking::compress::unpack_single_primitive args=packed,bit_width,index_to_decode
unchecked_unpack_single(bit_width, index(packed, div([128*bit_width], size_of())*div(index_to_decode, 1024)..[div([128*bit_width], size_of())*div(index_to_decode, 1024) + div([128*bit_width], size_of())]), rem(index_to_decode, 1024))
@ vortex::array::varbin::varbin_scalar args=value,dtype
Scalar(Binary(nullability(dtype)), Buffer(value)) <- dtype is Binary|Bool|Extension|List|Null|Primitive|Struct
Scalar(Utf8(nullability(dtype)), BufferString(try_into(value))) <- dtype is Utf8
@ vortex_alp::alp::ALPFloat::decode_single args=encoded,exponents
from_int(encoded)*index(F10, exponents.f)*index(IF10, exponents.e)
@ vortex_fastlanes::bitpacking::compress::unpack_single args=array,index ptype=U32 under=all calls=unpack_single_primitive voc=packed_slice n=1
unpack_single_primitive(packed_slice(array), bit_width(array), [index + offset(array)])
@ <vortex::compute::search_sorted::SearchResult>::to_ends_index args=self,len
[self@* - 1] <- Eq(len, self@*)
self@Found.0 <- !Eq(len, self@*) & self is Found
self@NotFound.0 <- !Eq(len, self@*) & self is NotFound
@ <vortex::compute::search_sorted::SearchResult>::to_found args=self,len
None <- self is NotFound
self@Found.0 <- self is Found
@ <vortex::compute::search_sorted::SearchResult>::to_index args=self,len
self@*
'''
def run(c):
    spec.run_tables(c, (('entry', ENTRY), ('kernel', KERNELS), ('patches', PATCHES), ('position', POSITION),), "must denote the array's value at that position", r'ScalarAtFn>::scalar_at(_unchecked)?$', ('kernel', 40))
