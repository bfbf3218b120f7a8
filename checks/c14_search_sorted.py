from lib import *
import spec
ID = 'C14'
TITLE = 'Searching sorted arrays'
RULE = 'the normal form of the binary search driver, of every comparison it is driven by, of every search_sorted implementation (scalar, u64 and bulk), of the conversions of its result and of the lookups built on it is compared with the form that denotes the leftmost or rightmost insertion point with nulls last'
CORE = r'''
@ <vortex::compute::search_sorted::SearchResult>::to_ends_index args=self,len
[self@* - 1] <- Eq(len, self@*)
self@Found.0 <- !Eq(len, self@*) & self is Found
self@NotFound.0 <- !Eq(len, self@*) & self is NotFound
@ <vortex::compute::search_sorted::SearchResult>::to_found args=self,len
None <- self is NotFound
self@Found.0 <- self is Found
@ <vortex::compute::search_sorted::SearchResult>::to_index args=self,len
self@*
@ <vortex::compute::search_sorted::SearchResult>::to_offsets_index args=self,len
[self@Found.0 - 1] <- Eq(len, self@Found.0) & self is Found
saturating_sub(self@NotFound.0, 1) <- self is NotFound
self@Found.0 <- !Eq(len, self@Found.0) & self is Found
@ vortex::compute::search_sorted::SearchSortedFn::search_sorted_many args=self,values,sides
each(search_sorted(self, elem(values), elem(sides)))
@ vortex::compute::search_sorted::SearchSortedFn::search_sorted_u64 args=self,values,sides
search_sorted(self, Scalar(dtype(), values), sides)
@ vortex::compute::search_sorted::SearchSortedFn::search_sorted_u64_many args=self,values,sides
each(search_sorted_u64(self, elem(values), elem(sides)))
@ vortex::compute::search_sorted::search_sorted args=array,target,side
or(search_sorted(search_sorted(array), cast(Scalar(dtype(), target), dtype(array)), side), search_sorted(array, cast(Scalar(dtype(), target), dtype(array)), side))
@ vortex::compute::search_sorted::search_sorted_many args=array,target,side
or(search_sorted_many(search_sorted(array), each(cast(Scalar(dtype(), elem(target)), dtype(array))), side), each(search_sorted(array, elem(target), elem(side))))
@ vortex::compute::search_sorted::search_sorted_u64 args=array,target,side
or(search_sorted_u64(search_sorted(array), target, side), search_sorted(array, cast(Scalar(dtype(), target), dtype(array)), side))
@ vortex::compute::search_sorted::search_sorted_u64_many args=array,target,side
or(search_sorted_u64_many(search_sorted(array), target, side), each(search_sorted_u64(array, elem(target), elem(side))))
@ vortex::compute::search_sorted::IndexOrd::index_ge args=self,idx,elem
and(index_cmp(self, idx, elem) is Equal|Greater, index_cmp(self, idx, elem) is Some)
@ vortex::compute::search_sorted::IndexOrd::index_gt args=self,idx,elem
and(index_cmp(self, idx, elem) is Greater, index_cmp(self, idx, elem) is Some)
@ vortex::compute::search_sorted::IndexOrd::index_le args=self,idx,elem
and(index_cmp(self, idx, elem) is Equal|Less, index_cmp(self, idx, elem) is Some)
@ vortex::compute::search_sorted::IndexOrd::index_lt args=self,idx,elem
and(index_cmp(self, idx, elem) is Less, index_cmp(self, idx, elem) is Some)
@ <[T] as vortex::compute::search_sorted::IndexOrd<T>>::index_cmp args=self,idx,elem
partial_cmp(get_unchecked(self, idx), elem)
@ <vortex::Array as vortex::compute::search_sorted::IndexOrd<vortex_scalar::Scalar>>::index_cmp args=self,idx,elem
None <- scalar_at(self, idx) is Err
partial_cmp(scalar_at(self, idx), elem) <- scalar_at(self, idx) is Ok
@ <vortex::array::primitive::compute::search_sorted::SearchSortedNullsLast<T> as vortex::compute::search_sorted::IndexOrd<T>>::index_cmp args=self,idx,elem
Greater <- !is_valid(self.validity, idx)
index_cmp(self.values, idx, elem) <- is_valid(self.validity, idx)
@ <vortex::array::primitive::compute::search_sorted::SearchSortedPrimitive<T> as vortex::compute::search_sorted::IndexOrd<T>>::index_cmp args=self,idx,elem
compare(get_unchecked(self.values, idx), elem)
@ <vortex_fastlanes::bitpacking::compute::search_sorted::BitPackedSearch<T> as vortex::compute::search_sorted::IndexOrd<T>>::index_cmp args=self,idx,elem
Greater <- !Lt(idx, self.first_invalid_idx)
compare(unpack_single_primitive(self.packed_maybe_null_slice, self.bit_width, [idx + self.offset]), elem) <- Lt(idx, self.first_invalid_idx)
@ <[T] as vortex::compute::search_sorted::Len>::len args=self
len(self)
@ <vortex::Array as vortex::compute::search_sorted::Len>::len args=self
len(self)
@ <vortex::array::primitive::compute::search_sorted::SearchSortedNullsLast<T> as vortex::compute::search_sorted::Len>::len args=self
len(self.values)
@ <vortex::array::primitive::compute::search_sorted::SearchSortedPrimitive<T> as vortex::compute::search_sorted::Len>::len args=self
len(self.values)
@ <vortex_fastlanes::bitpacking::compute::search_sorted::BitPackedSearch<T> as vortex::compute::search_sorted::Len>::len args=self
self.length
@ vortex::compute::search_sorted::SearchSorted::search_sorted args=self,value,side when=side:Left
search_sorted_by(self, fn(or(index_cmp(self, $0, value), Less)), fn({Greater <- !index_lt(self, $0, value) | Less <- index_lt(self, $0, value)}), side)
@ vortex::compute::search_sorted::SearchSorted::search_sorted args=self,value,side when=side:Right
search_sorted_by(self, fn(or(index_cmp(self, $0, value), Less)), fn({Greater <- !index_le(self, $0, value) | Less <- index_le(self, $0, value)}), side)
@ <S as vortex::compute::search_sorted::SearchSorted<T>>::search_sorted_by args=self,find,side_find,side
Found({search_sorted_side_idx(side_find, 0, search_sorted_side_idx(find, 0, len(self))@Found.0) <- side is Left | search_sorted_side_idx(side_find, search_sorted_side_idx(find, 0, len(self))@Found.0, len(self)) <- side is Right}@NotFound.0) <- search_sorted_side_idx(find, 0, len(self)) is Found
search_sorted_side_idx(find, 0, len(self)) <- search_sorted_side_idx(find, 0, len(self)) is NotFound
@ vortex::compute::search_sorted::search_sorted_side_idx args=find,from,to
Found(loop{[div(loop{0 | [-from + to]}, 2) + loop] <- icall(find, [div(loop{0 | [-from + to]}, 2) + loop]) is Equal|Less | from}) <- !Eq(0, [-from + to]) & icall(find, loop{[div(loop{0 | [-from + to]}, 2) + loop] <- icall(find, [div(loop{0 | [-from + to]}, 2) + loop]) is Equal|Less | from}) is Equal
NotFound(0) <- Eq(0, [-from + to])
NotFound([icall(find, loop{[div(loop{0 | [-from + to]}, 2) + loop] <- icall(find, [div(loop{0 | [-from + to]}, 2) + loop]) is Equal|Less | from}) is Less + loop{[div(loop{0 | [-from + to]}, 2) + loop] <- icall(find, [div(loop{0 | [-from + to]}, 2) + loop]) is Equal|Less | from}]) <- !Eq(0, [-from + to]) & icall(find, loop{[div(loop{0 | [-from + to]}, 2) + loop] <- icall(find, [div(loop{0 | [-from + to]}, 2) + loop]) is Equal|Less | from}) is Greater|Less
'''
IMPL = r'''
@ <vortex::array::constant::ConstantArray as vortex::compute::search_sorted::SearchSortedFn>::search_sorted args=self,value,side
Found(0) <- !Eq(0, len(self)) & or(partial_cmp(scalar_value(self), cast(value, dtype(self)).value), Less) is Equal & side is Left
Found(len(self)) <- !Eq(0, len(self)) & or(partial_cmp(scalar_value(self), cast(value, dtype(self)).value), Less) is Equal & side is Right
NotFound(0) <- Eq(0, len(self))
NotFound(0) <- or(partial_cmp(scalar_value(self), cast(value, dtype(self)).value), Less) is Greater
NotFound(len(self)) <- !Eq(0, len(self)) & or(partial_cmp(scalar_value(self), cast(value, dtype(self)).value), Less) is Less
@ <vortex::array::sparse::SparseArray as vortex::compute::search_sorted::SearchSortedFn>::search_sorted args=self,value,side
search_sorted(self, cast(value, dtype(self)), side) <- !is_null(fill_value(self))
search_sorted(self, cast(value, dtype(self)), side) <- Eq(0, indices_len(self))
{Found([-indices_offset(self) + {TryFrom.try_from(scalar_at(indices(self), to_offsets_index(search_sorted(values(self), value, side), indices_len(self)))) <- !Eq(indices_len(self), search_sorted(values(self), value, side)@Found.0) | [TryFrom.try_from(scalar_at(indices(self), to_offsets_index(search_sorted(values(self), value, side), indices_len(self)))) + 1] <- Eq(indices_len(self), search_sorted(values(self), value, side)@Found.0)}]) <- search_sorted(values(self), value, side) is Found | NotFound([-indices_offset(self) + {TryFrom.try_from(scalar_at(indices(self), to_offsets_index(search_sorted(values(self), value, side), indices_len(self)))) <- Eq(0, search_sorted(values(self), value, side)@NotFound.0) | [TryFrom.try_from(scalar_at(indices(self), to_offsets_index(search_sorted(values(self), value, side), indices_len(self)))) + 1] <- !Eq(0, search_sorted(values(self), value, side)@NotFound.0)}]) <- search_sorted(values(self), value, side) is NotFound} <- !Eq(0, indices_len(self)) & is_null(fill_value(self))
@ <vortex::array::primitive::PrimitiveArray as vortex::compute::search_sorted::SearchSortedFn>::search_sorted args=self,value,side ptype=I32
NotFound(0) <- validity(self) is AllInvalid
search_sorted(SearchSortedNullsLast.new(self), TryFrom.try_from(cast(value, dtype(self))), side) <- validity(self) is Array
search_sorted(SearchSortedPrimitive.new(self), TryFrom.try_from(cast(value, dtype(self))), side) <- validity(self) is AllValid|NonNullable
@ <vortex::array::primitive::PrimitiveArray as vortex::compute::search_sorted::SearchSortedFn>::search_sorted_u64 args=self,value,side ptype=U32
NotFound(0) <- cast(value) is Some & validity(self) is AllInvalid
NotFound(first_null_idx(validity(self), len(self))) <- cast(value) is None
search_sorted(SearchSortedNullsLast.new(self), cast(value), side) <- cast(value) is Some & validity(self) is Array
search_sorted(SearchSortedPrimitive.new(self), cast(value), side) <- cast(value) is Some & validity(self) is AllValid|NonNullable
@ <vortex_fastlanes::bitpacking::BitPackedArray as vortex::compute::search_sorted::SearchSortedFn>::search_sorted_u64 args=self,value,side ptype=U32
or(search_sorted_native(self, cast(value), side), NotFound(first_null_idx(self)))
@ <vortex_fastlanes::bitpacking::BitPackedArray as vortex::compute::search_sorted::SearchSortedFn>::search_sorted_many args=self,values,sides ptype=U32
each(search_sorted_with(self, BitPackedSearch.new(self), TryFrom.try_from(cast(elem(values), dtype(self))), elem(sides)))
@ <vortex_fastlanes::bitpacking::BitPackedArray as vortex::compute::search_sorted::SearchSortedFn>::search_sorted_u64_many args=self,values,sides ptype=U32
each(or(search_sorted_with(self, BitPackedSearch.new(self), cast(elem(values)), elem(sides)), search_sorted_u64(self, elem(values), elem(sides))))
@ vortex_fastlanes::bitpacking::compute::search_sorted::search_sorted_native args=array,value,side ptype=U32
search_sorted_with(array, BitPackedSearch.new(array), value, side)
@ vortex_fastlanes::bitpacking::compute::search_sorted::search_sorted_typed args=array,value,side ptype=U32
search_sorted_native(array, try_into(cast(value, dtype(array))), side)
@ <vortex_fastlanes::bitpacking::BitPackedArray as vortex::compute::search_sorted::SearchSortedFn>::search_sorted args=self,value,side ptype=U32
search_sorted_typed(self, value, side)
@ <vortex_fastlanes::for::FoRArray as vortex::compute::search_sorted::SearchSortedFn>::search_sorted args=self,value,side ptype=U32
search_sorted_typed(self, value, side)
@ vortex::array::primitive::compute::search_sorted::first_null_idx args=array,len
0 <- array is AllInvalid
len <- array is AllValid|NonNullable
true_count(as_bool_array_unchecked(array@Array.0)) <- array is Array
@ vortex_fastlanes::bitpacking::compute::search_sorted::first_null_idx args=array,len voc=true_count
0 <- validity(array) is AllInvalid
len(array) <- validity(array) is AllValid|NonNullable
true_count(as_bool_array_unchecked(validity(array)@Array.0)) <- validity(array) is Array
@ <vortex_fastlanes::bitpacking::compute::search_sorted::BitPackedSearch<T>>::new args=array ptype=U32
BitPackedSearch(packed_slice(array), offset(array), len(array), bit_width(array), min(first_null_idx(array), or(min_index(TryFrom.try_from(patches(array))), len(array))))
@ <vortex::array::primitive::compute::search_sorted::SearchSortedNullsLast<T>>::new args=array ptype=I32
SearchSortedNullsLast(SearchSortedPrimitive(maybe_null_slice(array)), validity(array))
@ <vortex::array::primitive::compute::search_sorted::SearchSortedPrimitive<T>>::new args=array ptype=I32
SearchSortedPrimitive(maybe_null_slice(array))
@ vortex_fastlanes::for::compute::search_sorted_typed args=array,value,side ptype=I32
NotFound(0) <- Lt(try_into(cast(value, dtype(array))), as_primitive(as_pvalue(reference(array))))
{NotFound(to_index(search_sorted(encoded(array), reinterpret_cast(Scalar(Primitive(PTYPE, nullability(dtype(value))), Primitive(shr(wrapping_sub(try_into(cast(value, dtype(array))), as_primitive(as_pvalue(reference(array)))), shift(array)))), U32), {Right <- !Eq(try_into(cast(value, dtype(array))), wrapping_add(as_primitive(as_pvalue(reference(array))), shl(shr(wrapping_sub(try_into(cast(value, dtype(array))), as_primitive(as_pvalue(reference(array)))), shift(array)), shift(array)))) | side <- Eq(try_into(cast(value, dtype(array))), wrapping_add(as_primitive(as_pvalue(reference(array))), shl(shr(wrapping_sub(try_into(cast(value, dtype(array))), as_primitive(as_pvalue(reference(array)))), shift(array)), shift(array))))}))) <- !Eq(try_into(cast(value, dtype(array))), wrapping_add(as_primitive(as_pvalue(reference(array))), shl(shr(wrapping_sub(try_into(cast(value, dtype(array))), as_primitive(as_pvalue(reference(array)))), shift(array)), shift(array)))) | NotFound(to_index(search_sorted(encoded(array), reinterpret_cast(Scalar(Primitive(PTYPE, nullability(dtype(value))), Primitive(shr(wrapping_sub(try_into(cast(value, dtype(array))), as_primitive(as_pvalue(reference(array)))), shift(array)))), U32), {Right <- !Eq(try_into(cast(value, dtype(array))), wrapping_add(as_primitive(as_pvalue(reference(array))), shl(shr(wrapping_sub(try_into(cast(value, dtype(array))), as_primitive(as_pvalue(reference(array)))), shift(array)), shift(array)))) | side <- Eq(try_into(cast(value, dtype(array))), wrapping_add(as_primitive(as_pvalue(reference(array))), shl(shr(wrapping_sub(try_into(cast(value, dtype(array))), as_primitive(as_pvalue(reference(array)))), shift(array)), shift(array))))}))) <- search_sorted(encoded(array), reinterpret_cast(Scalar(Primitive(PTYPE, nullability(dtype(value))), Primitive(shr(wrapping_sub(try_into(cast(value, dtype(array))), as_primitive(as_pvalue(reference(array)))), shift(array)))), U32), {Right <- !Eq(try_into(cast(value, dtype(array))), wrapping_add(as_primitive(as_pvalue(reference(array))), shl(shr(wrapping_sub(try_into(cast(value, dtype(array))), as_primitive(as_pvalue(reference(array)))), shift(array)), shift(array)))) | side <- Eq(try_into(cast(value, dtype(array))), wrapping_add(as_primitive(as_pvalue(reference(array))), shl(shr(wrapping_sub(try_into(cast(value, dtype(array))), as_primitive(as_pvalue(reference(array)))), shift(array)), shift(array))))}) is NotFound | search_sorted(encoded(array), reinterpret_cast(Scalar(Primitive(PTYPE, nullability(dtype(value))), Primitive(shr(wrapping_sub(try_into(cast(value, dtype(array))), as_primitive(as_pvalue(reference(array)))), shift(array)))), U32), {Right <- !Eq(try_into(cast(value, dtype(array))), wrapping_add(as_primitive(as_pvalue(reference(array))), shl(shr(wrapping_sub(try_into(cast(value, dtype(array))), as_primitive(as_pvalue(reference(array)))), shift(array)), shift(array)))) | side <- Eq(try_into(cast(value, dtype(array))), wrapping_add(as_primitive(as_pvalue(reference(array))), shl(shr(wrapping_sub(try_into(cast(value, dtype(array))), as_primitive(as_pvalue(reference(array)))), shift(array)), shift(array))))}) <- Eq(try_into(cast(value, dtype(array))), wrapping_add(as_primitive(as_pvalue(reference(array))), shl(shr(wrapping_sub(try_into(cast(value, dtype(array))), as_primitive(as_pvalue(reference(array)))), shift(array)), shift(array)))) & search_sorted(encoded(array), reinterpret_cast(Scalar(Primitive(PTYPE, nullability(dtype(value))), Primitive(shr(wrapping_sub(try_into(cast(value, dtype(array))), as_primitive(as_pvalue(reference(array)))), shift(array)))), U32), {Right <- !Eq(try_into(cast(value, dtype(array))), wrapping_add(as_primitive(as_pvalue(reference(array))), shl(shr(wrapping_sub(try_into(cast(value, dtype(array))), as_primitive(as_pvalue(reference(array)))), shift(array)), shift(array)))) | side <- Eq(try_into(cast(value, dtype(array))), wrapping_add(as_primitive(as_pvalue(reference(array))), shl(shr(wrapping_sub(try_into(cast(value, dtype(array))), as_primitive(as_pvalue(reference(array)))), shift(array)), shift(array))))}) is Found} <- !Lt(try_into(cast(value, dtype(array))), as_primitive(as_pvalue(reference(array))))
@ <vortex_runend::array::RunEndArray>::find_physical_index args=self,index
to_ends_index(search_sorted(ends(self), [index + offset(self)], Right), len(ends(self)))
@ <vortex_runend_bool::array::RunEndBoolArray>::find_physical_index args=self,index
to_ends_index(search_sorted(ends(self), [index + offset(self)], Right), len(ends(self)))
@ <vortex::array::sparse::SparseArray>::min_index args=self,index
None <- Eq(0, len(indices(self)))
[TryFrom.try_from(scalar_at(indices(self), 0)) - indices_offset(self)] <- !Eq(0, len(indices(self)))
@ <vortex::array::sparse::SparseArray>::search_index args=self,index
search_sorted(indices(self), [index + indices_offset(self)], Left)
@ <vortex::array::chunked::ChunkedArray>::chunk args=self,index
child(self, [index + 1], dtype(self), [TryFrom.try_from(scalar_at_unchecked(chunk_offsets(self), [index + 1])) - TryFrom.try_from(scalar_at_unchecked(chunk_offsets(self), index))])
@ <vortex::array::chunked::ChunkedArray>::chunk_offsets args=self,index
child(self, 0, Primitive(U64, NonNullable), [nchunks(self) + 1])
@ <vortex::array::chunked::ChunkedArray>::find_chunk_idx args=self,index
(saturating_sub({[to_index(search_sorted(chunk_offsets(self), index, Right)) - 1] <- Eq([nchunks(self) + 1], to_index(search_sorted(chunk_offsets(self), index, Right))) | to_index(search_sorted(chunk_offsets(self), index, Right)) <- !Eq([nchunks(self) + 1], to_index(search_sorted(chunk_offsets(self), index, Right)))}, 1), [-TryFrom.try_from(scalar_at(chunk_offsets(self), saturating_sub({[to_index(search_sorted(chunk_offsets(self), index, Right)) - 1] <- Eq([nchunks(self) + 1], to_index(search_sorted(chunk_offsets(self), index, Right))) | to_index(search_sorted(chunk_offsets(self), index, Right)) <- !Eq([nchunks(self) + 1], to_index(search_sorted(chunk_offsets(self), index, Right)))}, 1))) + index])
@ <vortex_fastlanes::bitpacking::BitPackedArray>::max_packed_value args=self
[shl(1, bit_width(self)) - 1]
@ vortex_fastlanes::bitpacking::compute::search_sorted::search_sorted_with args=array,searcher,value,side ptype=U32
search_sorted(searcher, value, side) <- !Lt(max_packed_value(array), value)
search_sorted(searcher, value, side) <- patches(array) is None
search_sorted_u64(patches(array), value, side) <- Lt(max_packed_value(array), value) & patches(array) is Some
'''
def run(c):
    spec.run_tables(c, (('core', CORE), ('implementation', IMPL),), 'must find the insertion point of the value', r'SearchSortedFn>::search_sorted(_u64)?(_many)?$', ('implementation', 20))
