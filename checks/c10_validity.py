from lib import *
import spec
ID = 'C10'
TITLE = 'Which values are null'
RULE = 'the normal form of every ArrayValidity implementation and of every operation of Validity / LogicalValidity is compared with the form that denotes which rows are null: row-aligned validity is read at the row, encodings without validity of their own ask the component that carries it, position lookups of validity and of values agree, the case table of conjunction and equality is complete, and summaries (all valid / all invalid) are made exactly when every row is so'
ROWS = r'''
@ <vortex::array::bool::BoolArray as vortex::validity::ArrayValidity>::is_valid args=self,index inl=is_valid
is_valid(validity(self), index)
@ <vortex::array::chunked::ChunkedArray as vortex::validity::ArrayValidity>::is_valid args=self,index inl=is_valid
is_valid(chunk(self, find_chunk_idx(self, index).0), find_chunk_idx(self, index).1)
@ <vortex::array::constant::ConstantArray as vortex::validity::ArrayValidity>::is_valid args=self,index inl=is_valid
!is_null(scalar_value(self))
@ <vortex::array::extension::ExtensionArray as vortex::validity::ArrayValidity>::is_valid args=self,index inl=is_valid
is_valid(storage(self), index)
@ <vortex::array::null::NullArray as vortex::validity::ArrayValidity>::is_valid args=self,index inl=is_valid
False
@ <vortex::array::primitive::PrimitiveArray as vortex::validity::ArrayValidity>::is_valid args=self,index inl=is_valid
is_valid(validity(self), index)
@ <vortex::array::sparse::SparseArray as vortex::validity::ArrayValidity>::is_valid args=self,index inl=is_valid
!and(!and(!is_null(fill_value(self)), is_valid(values(self), search_index(self, index)@Found.0)), !and(!is_null(fill_value(self)), search_index(self, index) is NotFound), !and(is_valid(values(self), search_index(self, index)@Found.0), search_index(self, index) is Found))
@ <vortex::array::struct_::StructArray as vortex::validity::ArrayValidity>::is_valid args=self,index inl=is_valid
is_valid(validity(self), index)
@ <vortex::array::varbin::VarBinArray as vortex::validity::ArrayValidity>::is_valid args=self,index inl=is_valid
is_valid(validity(self), index)
@ <vortex::array::varbinview::VarBinViewArray as vortex::validity::ArrayValidity>::is_valid args=self,index inl=is_valid
is_valid(validity(self), index)
@ <vortex_alp::alp::array::ALPArray as vortex::validity::ArrayValidity>::is_valid args=self,index inl=is_valid
is_valid(encoded(self), index)
@ <vortex_alp::alp_rd::array::ALPRDArray as vortex::validity::ArrayValidity>::is_valid args=self,index inl=is_valid
is_valid(left_parts(self), index)
@ <vortex_bytebool::array::ByteBoolArray as vortex::validity::ArrayValidity>::is_valid args=self,index inl=is_valid
is_valid(validity(self), index)
@ <vortex_datetime_parts::array::DateTimePartsArray as vortex::validity::ArrayValidity>::is_valid args=self,index inl=is_valid
is_valid(validity(self), index)
@ <vortex_dict::array::DictArray as vortex::validity::ArrayValidity>::is_valid args=self,index inl=is_valid
is_valid(values(self), TryFrom.try_from(scalar_at(codes(self), index)))
@ <vortex_fastlanes::bitpacking::BitPackedArray as vortex::validity::ArrayValidity>::is_valid args=self,index inl=is_valid
is_valid(validity(self), index)
@ <vortex_fastlanes::delta::DeltaArray as vortex::validity::ArrayValidity>::is_valid args=self,index inl=is_valid
is_valid(validity(self), index)
@ <vortex_fastlanes::for::FoRArray as vortex::validity::ArrayValidity>::is_valid args=self,index inl=is_valid
is_valid(encoded(self), index)
@ <vortex_fsst::array::FSSTArray as vortex::validity::ArrayValidity>::is_valid args=self,index inl=is_valid
is_valid(codes(self), index)
@ <vortex_roaring::boolean::RoaringBoolArray as vortex::validity::ArrayValidity>::is_valid args=self,index inl=is_valid
True
@ <vortex_roaring::integer::RoaringIntArray as vortex::validity::ArrayValidity>::is_valid args=self,index inl=is_valid
True
@ <vortex_runend::array::RunEndArray as vortex::validity::ArrayValidity>::is_valid args=self,index inl=is_valid
is_valid(validity(self), index)
@ <vortex_runend_bool::array::RunEndBoolArray as vortex::validity::ArrayValidity>::is_valid args=self,index inl=is_valid
is_valid(validity(self), index)
@ <vortex_zigzag::array::ZigZagArray as vortex::validity::ArrayValidity>::is_valid args=self,index inl=is_valid
is_valid(encoded(self), index)
@ <vortex::array::bool::BoolArray as vortex::validity::ArrayValidity>::logical_validity args=self inl=logical_validity ptype=U8
to_logical(validity(self), len(self))
@ <vortex::array::chunked::ChunkedArray as vortex::validity::ArrayValidity>::logical_validity args=self inl=logical_validity ptype=U8
to_logical(each(logical_validity(elem(chunks(self)))), len(self))
@ <vortex::array::constant::ConstantArray as vortex::validity::ArrayValidity>::logical_validity args=self inl=logical_validity ptype=U8
AllInvalid(len(self)) <- is_null(scalar_value(self))
AllValid(len(self)) <- !is_null(scalar_value(self))
@ <vortex::array::extension::ExtensionArray as vortex::validity::ArrayValidity>::logical_validity args=self inl=logical_validity ptype=U8
logical_validity(storage(self))
@ <vortex::array::null::NullArray as vortex::validity::ArrayValidity>::logical_validity args=self inl=logical_validity ptype=U8
AllInvalid(len(self))
@ <vortex::array::primitive::PrimitiveArray as vortex::validity::ArrayValidity>::logical_validity args=self inl=logical_validity ptype=U8
to_logical(validity(self), len(self))
@ <vortex::array::sparse::SparseArray as vortex::validity::ArrayValidity>::logical_validity args=self inl=logical_validity ptype=U8
Array(SparseArray.try_new_with_offset(indices(self), logical_validity(values(self)), len(self), indices_offset(self), Bool(!is_null(fill_value(self)))))
@ <vortex::array::struct_::StructArray as vortex::validity::ArrayValidity>::logical_validity args=self inl=logical_validity ptype=U8
to_logical(validity(self), len(self))
@ <vortex::array::varbin::VarBinArray as vortex::validity::ArrayValidity>::logical_validity args=self inl=logical_validity ptype=U8
to_logical(validity(self), len(self))
@ <vortex::array::varbinview::VarBinViewArray as vortex::validity::ArrayValidity>::logical_validity args=self inl=logical_validity ptype=U8
to_logical(validity(self), len(self))
@ <vortex_alp::alp::array::ALPArray as vortex::validity::ArrayValidity>::logical_validity args=self inl=logical_validity ptype=U8
logical_validity(encoded(self))
@ <vortex_alp::alp_rd::array::ALPRDArray as vortex::validity::ArrayValidity>::logical_validity args=self inl=logical_validity ptype=U8
logical_validity(left_parts(self))
@ <vortex_bytebool::array::ByteBoolArray as vortex::validity::ArrayValidity>::logical_validity args=self inl=logical_validity ptype=U8
to_logical(validity(self), len(self))
@ <vortex_datetime_parts::array::DateTimePartsArray as vortex::validity::ArrayValidity>::logical_validity args=self inl=logical_validity ptype=U8
to_logical(validity(self), len(self))
@ <vortex_dict::array::DictArray as vortex::validity::ArrayValidity>::logical_validity args=self inl=logical_validity ptype=U8
AllValid(len(self)) <- nullability(dtype(self)) is NonNullable
Array(BoolArray.try_new(each(!Eq(0, elem(maybe_null_slice(codes(self))))), NonNullable)) <- nullability(dtype(self)) is Nullable
@ <vortex_fastlanes::bitpacking::BitPackedArray as vortex::validity::ArrayValidity>::logical_validity args=self inl=logical_validity ptype=U8
to_logical(validity(self), len(self))
@ <vortex_fastlanes::delta::DeltaArray as vortex::validity::ArrayValidity>::logical_validity args=self inl=logical_validity ptype=U8
to_logical(validity(self), len(self))
@ <vortex_fastlanes::for::FoRArray as vortex::validity::ArrayValidity>::logical_validity args=self inl=logical_validity ptype=U8
logical_validity(encoded(self))
@ <vortex_fsst::array::FSSTArray as vortex::validity::ArrayValidity>::logical_validity args=self inl=logical_validity ptype=U8
logical_validity(codes(self))
@ <vortex_roaring::boolean::RoaringBoolArray as vortex::validity::ArrayValidity>::logical_validity args=self inl=logical_validity ptype=U8
AllValid(len(self))
@ <vortex_roaring::integer::RoaringIntArray as vortex::validity::ArrayValidity>::logical_validity args=self inl=logical_validity ptype=U8
AllValid(len(self))
@ <vortex_runend::array::RunEndArray as vortex::validity::ArrayValidity>::logical_validity args=self inl=logical_validity ptype=U8
to_logical(validity(self), len(self))
@ <vortex_runend_bool::array::RunEndBoolArray as vortex::validity::ArrayValidity>::logical_validity args=self inl=logical_validity ptype=U8
to_logical(validity(self), len(self))
@ <vortex_zigzag::array::ZigZagArray as vortex::validity::ArrayValidity>::logical_validity args=self inl=logical_validity ptype=U8
logical_validity(encoded(self))
'''
OPS = r'''
@ <vortex::validity::Validity>::to_metadata args=self,length errs=1
Array <- Eq(len(self@Array.0), length) & self is Array
self <- self is AllInvalid|AllValid|NonNullable
@ <vortex::validity::Validity>::as_array args=self
None <- self is AllInvalid|AllValid|NonNullable
self@Array.0 <- self is Array
@ <vortex::validity::Validity>::into_array args=self
None <- self is AllInvalid|AllValid|NonNullable
self@Array.0 <- self is Array
@ <vortex::validity::Validity>::into_nullable args=self
AllValid <- self is NonNullable
self <- self is AllInvalid|AllValid|Array
@ <vortex::validity::Validity>::nullability args=self
Nullable <- self is AllInvalid|AllValid|Array
self <- self is NonNullable
@ <vortex::validity::Validity>::is_null args=self,index inl=is_valid
and(!and(TryFrom.try_from(scalar_at_unchecked(self@Array.0, index)), self is Array), !self is AllValid|NonNullable)
@ <vortex::validity::Validity>::is_valid args=self,index inl=is_valid
!and(!and(TryFrom.try_from(scalar_at_unchecked(self@Array.0, index)), self is Array), !self is AllValid|NonNullable)
@ <vortex::validity::Validity>::slice args=self,start,stop inl=slice
Array(slice(self@Array.0, start, stop)) <- self is Array
self <- self is AllInvalid|AllValid|NonNullable
@ <vortex::validity::Validity>::filter args=self,by inl=take,filter
Array(filter(self@Array.0, by)) <- self is Array
self <- self is AllInvalid|AllValid|NonNullable
@ <vortex::validity::Validity>::take args=self,by inl=take,filter
Array(take(self@Array.0, by)) <- self is Array
self <- self is AllInvalid|AllValid|NonNullable
@ <vortex::validity::Validity>::and args=self,rhs inl=and when=self:NonNullable,rhs:NonNullable
NonNullable
@ <vortex::validity::Validity>::and args=self,rhs inl=and when=self:NonNullable,rhs:AllValid
AllValid
@ <vortex::validity::Validity>::and args=self,rhs inl=and when=self:NonNullable,rhs:AllInvalid
AllInvalid
@ <vortex::validity::Validity>::and args=self,rhs inl=and when=self:NonNullable,rhs:Array
Array(rhs@Array.0)
@ <vortex::validity::Validity>::and args=self,rhs inl=and when=self:AllValid,rhs:NonNullable
AllValid
@ <vortex::validity::Validity>::and args=self,rhs inl=and when=self:AllValid,rhs:AllValid
AllValid
@ <vortex::validity::Validity>::and args=self,rhs inl=and when=self:AllValid,rhs:AllInvalid
AllInvalid
@ <vortex::validity::Validity>::and args=self,rhs inl=and when=self:AllValid,rhs:Array
Array(rhs@Array.0)
@ <vortex::validity::Validity>::and args=self,rhs inl=and when=self:AllInvalid,rhs:NonNullable
AllInvalid
@ <vortex::validity::Validity>::and args=self,rhs inl=and when=self:AllInvalid,rhs:AllValid
AllInvalid
@ <vortex::validity::Validity>::and args=self,rhs inl=and when=self:AllInvalid,rhs:AllInvalid
AllInvalid
@ <vortex::validity::Validity>::and args=self,rhs inl=and when=self:AllInvalid,rhs:Array
AllInvalid
@ <vortex::validity::Validity>::and args=self,rhs inl=and when=self:Array,rhs:NonNullable
Array(self@Array.0)
@ <vortex::validity::Validity>::and args=self,rhs inl=and when=self:Array,rhs:AllValid
Array(self@Array.0)
@ <vortex::validity::Validity>::and args=self,rhs inl=and when=self:Array,rhs:AllInvalid
AllInvalid
@ <vortex::validity::Validity>::and args=self,rhs inl=and when=self:Array,rhs:Array
{AllInvalid <- !Eq(count_set_bits(bitand(boolean_buffer(rhs@Array.0), boolean_buffer(self@Array.0))), len(bitand(boolean_buffer(rhs@Array.0), boolean_buffer(self@Array.0)))) & Eq(0, count_set_bits(bitand(boolean_buffer(rhs@Array.0), boolean_buffer(self@Array.0)))) | AllValid <- Eq(count_set_bits(bitand(boolean_buffer(rhs@Array.0), boolean_buffer(self@Array.0))), len(bitand(boolean_buffer(rhs@Array.0), boolean_buffer(self@Array.0)))) | Array(BoolArray.try_new(bitand(boolean_buffer(rhs@Array.0), boolean_buffer(self@Array.0)), NonNullable)) <- !Eq(0, count_set_bits(bitand(boolean_buffer(rhs@Array.0), boolean_buffer(self@Array.0)))) & !Eq(count_set_bits(bitand(boolean_buffer(rhs@Array.0), boolean_buffer(self@Array.0))), len(bitand(boolean_buffer(rhs@Array.0), boolean_buffer(self@Array.0))))}
@ <vortex::validity::Validity as core::cmp::PartialEq<vortex::validity::Validity>>::eq args=self,other when=self:NonNullable,other:NonNullable
True
@ <vortex::validity::Validity as core::cmp::PartialEq<vortex::validity::Validity>>::eq args=self,other when=self:NonNullable,other:AllValid
False
@ <vortex::validity::Validity as core::cmp::PartialEq<vortex::validity::Validity>>::eq args=self,other when=self:NonNullable,other:AllInvalid
False
@ <vortex::validity::Validity as core::cmp::PartialEq<vortex::validity::Validity>>::eq args=self,other when=self:NonNullable,other:Array
False
@ <vortex::validity::Validity as core::cmp::PartialEq<vortex::validity::Validity>>::eq args=self,other when=self:AllValid,other:NonNullable
False
@ <vortex::validity::Validity as core::cmp::PartialEq<vortex::validity::Validity>>::eq args=self,other when=self:AllValid,other:AllValid
True
@ <vortex::validity::Validity as core::cmp::PartialEq<vortex::validity::Validity>>::eq args=self,other when=self:AllValid,other:AllInvalid
False
@ <vortex::validity::Validity as core::cmp::PartialEq<vortex::validity::Validity>>::eq args=self,other when=self:AllValid,other:Array
False
@ <vortex::validity::Validity as core::cmp::PartialEq<vortex::validity::Validity>>::eq args=self,other when=self:AllInvalid,other:NonNullable
False
@ <vortex::validity::Validity as core::cmp::PartialEq<vortex::validity::Validity>>::eq args=self,other when=self:AllInvalid,other:AllValid
False
@ <vortex::validity::Validity as core::cmp::PartialEq<vortex::validity::Validity>>::eq args=self,other when=self:AllInvalid,other:AllInvalid
True
@ <vortex::validity::Validity as core::cmp::PartialEq<vortex::validity::Validity>>::eq args=self,other when=self:AllInvalid,other:Array
False
@ <vortex::validity::Validity as core::cmp::PartialEq<vortex::validity::Validity>>::eq args=self,other when=self:Array,other:NonNullable
False
@ <vortex::validity::Validity as core::cmp::PartialEq<vortex::validity::Validity>>::eq args=self,other when=self:Array,other:AllValid
False
@ <vortex::validity::Validity as core::cmp::PartialEq<vortex::validity::Validity>>::eq args=self,other when=self:Array,other:AllInvalid
False
@ <vortex::validity::Validity as core::cmp::PartialEq<vortex::validity::Validity>>::eq args=self,other when=self:Array,other:Array
Eq(boolean_buffer(other@Array.0), boolean_buffer(self@Array.0))
@ <vortex::validity::Validity as core::convert::From<alloc::vec::Vec<bool, alloc::alloc::Global>>>::from args=value
AllInvalid <- !iall(value, elem(value)) & iall(value, !elem(value))
AllValid <- iall(value, elem(value))
Array(BoolArray.from_vec(value, NonNullable)) <- !iall(value, !elem(value)) & !iall(value, elem(value))
@ <vortex::validity::Validity as core::convert::From<arrow_buffer::buffer::boolean::BooleanBuffer>>::from args=value
AllInvalid <- !Eq(count_set_bits(value), len(value)) & Eq(0, count_set_bits(value))
AllValid <- Eq(count_set_bits(value), len(value))
Array(BoolArray.try_new(value, NonNullable)) <- !Eq(0, count_set_bits(value)) & !Eq(count_set_bits(value), len(value))
@ <vortex::validity::Validity as core::convert::From<arrow_buffer::buffer::null::NullBuffer>>::from args=value
AllInvalid <- !Eq(count_set_bits(value), len(value)) & Eq(0, count_set_bits(value))
AllValid <- Eq(count_set_bits(value), len(value))
Array(BoolArray.try_new(value, NonNullable)) <- !Eq(0, count_set_bits(value)) & !Eq(count_set_bits(value), len(value))
@ <vortex::validity::ValidityMetadata>::to_validity args=self,array_fn
Array(icall(array_fn)) <- self is Array
self <- self is AllInvalid|AllValid|NonNullable
@ <vortex::validity::LogicalValidity>::all_invalid args=self
self is AllInvalid
@ <vortex::validity::LogicalValidity>::all_valid args=self
self is AllValid
@ <vortex::validity::LogicalValidity>::into_validity args=self
Array(self@Array.0) <- self is Array
self <- self is AllInvalid|AllValid
@ <vortex::validity::LogicalValidity>::is_empty args=self inl=is_empty voc=is_empty
!and(!and(Eq(0, len(self@Array.0)), self is Array), !and(Eq(0, self@AllInvalid.0), self is AllInvalid), !and(Eq(0, self@AllValid.0), self is AllValid))
@ <vortex::validity::LogicalValidity>::len args=self
len(self@Array.0) <- self is Array
self@AllInvalid.0 <- self is AllInvalid
self@AllValid.0 <- self is AllValid
@ <vortex::validity::LogicalValidity>::to_null_buffer args=self
None <- self is AllValid
NullBuffer.new(boolean_buffer(self@Array.0)) <- self is Array
new_null(self@AllInvalid.0) <- self is AllInvalid
@ <vortex::validity::LogicalValidity>::try_new_from_array args=self
AllInvalid(len(self)) <- !Eq(compute_true_count(statistics(self)), len(self)) & Eq(0, compute_true_count(statistics(self)))
AllValid(len(self)) <- Eq(compute_true_count(statistics(self)), len(self))
Array(self) <- !Eq(0, compute_true_count(statistics(self))) & !Eq(compute_true_count(statistics(self)), len(self))
@ <vortex::validity::LogicalValidity as core::convert::TryFrom<vortex::Array>>::try_from args=self
AllInvalid(len(self)) <- !Eq(compute_true_count(statistics(self)), len(self)) & Eq(0, compute_true_count(statistics(self)))
AllValid(len(self)) <- Eq(compute_true_count(statistics(self)), len(self))
Array(self) <- !Eq(0, compute_true_count(statistics(self))) & !Eq(compute_true_count(statistics(self)), len(self))
@ <vortex::validity::LogicalValidity as vortex::IntoArray>::into_array args=self
BoolArray.from_vec(from_elem(False, self@AllInvalid.0), NonNullable) <- self is AllInvalid
BoolArray.from_vec(from_elem(True, self@AllValid.0), NonNullable) <- self is AllValid
self@Array.0 <- self is Array
@ <vortex::validity::Validity as core::iter::traits::collect::FromIterator<&core::option::Option<E>>>::from_iter args=iter
AllInvalid <- !iall(iter, isSome(elem(iter))) & iall(iter, !isSome(elem(iter)))
AllValid <- iall(iter, isSome(elem(iter)))
Array(BoolArray.from_vec(each(isSome(elem(iter))), NonNullable)) <- !iall(iter, !isSome(elem(iter))) & !iall(iter, isSome(elem(iter)))
@ <vortex::validity::Validity as core::iter::traits::collect::FromIterator<vortex::validity::LogicalValidity>>::from_iter args=iter
AllInvalid <- !iall(iter, all_valid(elem(iter))) & iall(iter, all_invalid(elem(iter)))
AllValid <- iall(iter, all_valid(elem(iter)))
Array(BoolArray.try_new(finish(loop{BooleanBufferBuilder.new(sum(each(len(elem(iter))))) | loop.append_buffer(boolean_buffer(elem(iter)@Array.0)) | loop.append_n(elem(iter)@AllInvalid.0, False) | loop.append_n(elem(iter)@AllValid.0, True)}), NonNullable)) <- !iall(iter, all_invalid(elem(iter))) & !iall(iter, all_valid(elem(iter)))
@ <vortex::validity::Validity as core::iter::traits::collect::FromIterator<vortex::validity::LogicalValidity>>::from_iter args=iter under=all calls=append_buffer#1 voc=boolean_buffer n=1
append_buffer(boolean_buffer(elem(iter)@Array.0)) <- !iall(iter, elem(iter) is AllInvalid) & !iall(iter, elem(iter) is AllValid) & elem(iter) is Array
@ <vortex::validity::Validity as core::iter::traits::collect::FromIterator<vortex::validity::LogicalValidity>>::from_iter args=iter under=all each=1 calls=append_n#1,2 n=2
append_n(elem(iter)@AllInvalid.0, False) <- !iall(iter, elem(iter) is AllInvalid) & !iall(iter, elem(iter) is AllValid) & elem(iter) is AllInvalid
append_n(elem(iter)@AllValid.0, True) <- !iall(iter, elem(iter) is AllInvalid) & !iall(iter, elem(iter) is AllValid) & elem(iter) is AllValid
@ <vortex::validity::Validity>::to_logical args=self,length inl=to_logical when=self:Array
AllInvalid(length) <- !Eq(True, compute_min(statistics(self@Array.0))) & Eq(False, compute_max(statistics(self@Array.0)))
AllValid(length) <- Eq(True, compute_min(statistics(self@Array.0)))
Array(self@Array.0) <- !Eq(False, compute_max(statistics(self@Array.0))) & !Eq(True, compute_min(statistics(self@Array.0)))
@ <vortex::validity::Validity>::to_logical args=self,length inl=to_logical when=self:AllInvalid
AllInvalid(length)
@ <vortex::validity::Validity>::to_logical args=self,length inl=to_logical when=self:NonNullable|AllValid
AllValid(length)
'''
def run(c):
    spec.run_tables(c, (('row-validity', ROWS), ('validity-operation', OPS),), 'must denote which values are null', r'ArrayValidity>::(is_valid|logical_validity)$', ('row-validity', 46))
