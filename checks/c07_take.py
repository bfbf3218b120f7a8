from lib import *
import spec
ID = 'C07'
TITLE = 'Taking rows by index gathers exactly the indexed rows'
RULE = ('the normal form of every TakeFn::take and of the gather helpers it uses is compared with the form that denotes row indices[j] of every component: row-aligned components taken with the same indices, '
        'per-array components kept, the result as long as the indices, lookups under the array\'s own offset, null rows staying null and the nullability unchanged')
S = 'vortex::compute::take::TakeFn'
TABLE = '''
@ vortex::compute::take::take args=array,indices under=all calls=take n=4
take(array)
take(array@*) <- take(array) is None
take(take(array), indices) <- take(array) is Some
take(take(array@*), indices) <- take(array) is None
@ <vortex::array::bool::BoolArray as %S%>::take args=self,indices ptype=I32
BoolArray.try_new(each(value(boolean_buffer(self), elem(maybe_null_slice(indices)))), take(validity(self), indices))
@ <vortex::array::constant::ConstantArray as %S%>::take args=self,indices
ConstantArray.new(owned_scalar(self), len(indices))
@ <vortex::array::extension::ExtensionArray as %S%>::take args=self,indices
ExtensionArray.new(dtype(self)@Extension.0, take(storage(self), indices))
@ <vortex::array::null::NullArray as %S%>::take args=self,indices ptype=I32
NullArray.new(len(indices))
@ <vortex::array::primitive::PrimitiveArray as %S%>::take args=self,indices ptype=I32
PrimitiveArray.from_vec(each(index(maybe_null_slice(self), to_usize(elem(maybe_null_slice(indices))))), take(validity(self), indices))
@ <vortex::array::struct_::StructArray as %S%>::take args=self,indices
StructArray.try_new(dtype(self)@Struct.0.names, each(take(elem(children(self)), indices)), len(indices), take(validity(self), indices))
@ <vortex_alp::alp::array::ALPArray as %S%>::take args=self,indices
ALPArray.try_new(take(encoded(self), indices), exponents(self), take(patches(self), indices))
@ <vortex_alp::alp_rd::array::ALPRDArray as %S%>::take args=self,indices
ALPRDArray.try_new(dtype(self), take(left_parts(self), indices), left_parts_dict(self), take(right_parts(self), indices), right_bit_width(self), take(left_parts_exceptions(self), indices))
@ <vortex_bytebool::array::ByteBoolArray as %S%>::take args=self,indices ptype=I32
ByteBoolArray.try_from_vec(each(index(maybe_null_slice(self), elem(maybe_null_slice(as_primitive(indices))))), take(validity(self), indices))
@ <vortex_datetime_parts::array::DateTimePartsArray as %S%>::take args=self,indices
DateTimePartsArray.try_new(dtype(self), take(days(self), indices), take(seconds(self), indices), take(subsecond(self), indices))
@ <vortex_dict::array::DictArray as %S%>::take args=self,indices
DictArray.try_new(take(codes(self), indices), values(self))
@ <vortex_fastlanes::for::FoRArray as %S%>::take args=self,indices
FoRArray.try_new(take(encoded(self), indices), Scalar(dtype(self), reference(self)), shift(self))
@ <vortex_fsst::array::FSSTArray as %S%>::take args=self,indices
FSSTArray.try_new(dtype(self), symbols(self), symbol_lengths(self), take(codes(self), indices), take(uncompressed_lengths(self), indices))
@ <vortex_runend_bool::array::RunEndBoolArray as %S%>::take args=self,indices ptype=I32
BoolArray.from_vec(each(!and(!and(!Eq(0, rem(find_physical_index(self, elem(maybe_null_slice(indices))), 2)), !start(self)), !and(Eq(0, rem(find_physical_index(self, elem(maybe_null_slice(indices))), 2)), start(self)))), take(validity(self), indices))
@ <vortex_runend::array::RunEndArray as %S%>::take args=self,indices ptype=I32
{ConstantArray.new(null(dtype(self)), len(indices)) <- validity(self) is AllInvalid | SparseArray.try_new(PrimitiveArray.from_vec(each(elem(set_indices(boolean_buffer(take(validity(self)@Array.0, indices))))), NonNullable), filter(take(values(self), PrimitiveArray.from_vec(each(elem(find_physical_indices(self, each([elem(maybe_null_slice(indices)) + offset(self)])))), NonNullable)), take(validity(self)@Array.0, indices)), len(take(validity(self)@Array.0, indices)), Null) <- validity(self) is Array | take(values(self), PrimitiveArray.from_vec(each(elem(find_physical_indices(self, each([elem(maybe_null_slice(indices)) + offset(self)])))), NonNullable)) <- validity(self) is AllValid|NonNullable}
@ <vortex_runend::array::RunEndArray>::find_physical_indices args=self,indices voc=search_sorted_u64_many
each(to_ends_index(elem(search_sorted_u64_many(ends(self), indices, from_elem(Right, len(indices)))), len(ends(self))))
@ <vortex::validity::Validity>::take args=self,indices
self <- self is AllInvalid|AllValid|NonNullable
Array(take(self@Array.0, indices)) <- self is Array
'''.replace('%S%', S)
CHUNK = '''
@ <vortex::array::chunked::ChunkedArray as %S%>::take args=self,indices under=all calls=take loops=0 voc=try_cast,find_chunk_idx,take_strict_sorted n=2
take(chunk(self, L), each(find_chunk_idx(self, elem(maybe_null_slice(try_cast(indices, Primitive(U64, NonNullable))))).1)) <- !Eq(0, len(each(find_chunk_idx(self, elem(maybe_null_slice(try_cast(indices, Primitive(U64, NonNullable))))).1))) & !Eq(True, TryFrom.try_from(compute(indices@*, IsStrictSorted)))
take(chunk(self, L), each(find_chunk_idx(self, elem(maybe_null_slice(try_cast(indices, Primitive(U64, NonNullable))))).1)) <- !Eq(L, find_chunk_idx(self, elem(maybe_null_slice(try_cast(indices, Primitive(U64, NonNullable))))).0) & !Eq(True, TryFrom.try_from(compute(indices@*, IsStrictSorted)))
@ <vortex::array::chunked::ChunkedArray as %S%>::take args=self,indices loops=0 voc=try_cast,find_chunk_idx
ChunkedArray.try_new({each(take(chunk(self, L), each(find_chunk_idx(self, elem(maybe_null_slice(try_cast(indices, Primitive(U64, NonNullable))))).1))) <- Eq(0, len(each(find_chunk_idx(self, elem(maybe_null_slice(try_cast(indices, Primitive(U64, NonNullable))))).1))) | each(take(chunk(self, L), each(find_chunk_idx(self, elem(maybe_null_slice(try_cast(indices, Primitive(U64, NonNullable))))).1))).push(take(chunk(self, L), each(find_chunk_idx(self, elem(maybe_null_slice(try_cast(indices, Primitive(U64, NonNullable))))).1))) <- !Eq(0, len(each(find_chunk_idx(self, elem(maybe_null_slice(try_cast(indices, Primitive(U64, NonNullable))))).1)))}, dtype(self)) <- !Eq(True, compute_is_strict_sorted(indices@*))
self <- Eq(True, compute_is_strict_sorted(indices@*)) & Eq(len(indices), len(self))
take_strict_sorted(self, indices) <- !Eq(len(indices), len(self)) & Eq(True, compute_is_strict_sorted(indices@*))
@ vortex::array::chunked::compute::take::take_strict_sorted args=chunked,indices loops=0 soft=1
ChunkedArray.try_new(each(take(chunk(chunked, pos(L)), elem(L))), dtype(chunked))
@ vortex::array::chunked::compute::take::take_strict_sorted args=chunked,indices loops=0 soft=1 calls=slice n=1
slice(indices, L, {len(indices) <- Lt(max_value(TryFrom.try_from(dtype(indices))), TryFrom.try_from(scalar_at(chunk_offsets(chunked), [find_chunk_idx(chunked, TryFrom.try_from(scalar_at(indices, L))).0 + 1]))) | to_index(search_sorted(indices, TryFrom.try_from(scalar_at(chunk_offsets(chunked), [find_chunk_idx(chunked, TryFrom.try_from(scalar_at(indices, L))).0 + 1])), Left)) <- !Lt(max_value(TryFrom.try_from(dtype(indices))), TryFrom.try_from(scalar_at(chunk_offsets(chunked), [find_chunk_idx(chunked, TryFrom.try_from(scalar_at(indices, L))).0 + 1])))})
@ vortex::array::chunked::compute::take::take_strict_sorted args=chunked,indices loops=0 soft=1 calls=subtract_scalar#1 voc=cast,Scalar.from,slice,search_sorted n=2
subtract_scalar(TryFrom.try_from(scalar_at(chunk_offsets(chunked), find_chunk_idx(chunked, TryFrom.try_from(scalar_at(indices, L))).0)))
subtract_scalar(cast(TryFrom.try_from(scalar_at(chunk_offsets(chunked), find_chunk_idx(chunked, TryFrom.try_from(scalar_at(indices, L))).0)), dtype(slice(indices, L, {len(indices) <- Lt(max_value(TryFrom.try_from(dtype(indices))), TryFrom.try_from(scalar_at(chunk_offsets(chunked), [find_chunk_idx(chunked, TryFrom.try_from(scalar_at(indices, L))).0 + 1]))) | to_index(search_sorted(indices, TryFrom.try_from(scalar_at(chunk_offsets(chunked), [find_chunk_idx(chunked, TryFrom.try_from(scalar_at(indices, L))).0 + 1])), Left)) <- !Lt(max_value(TryFrom.try_from(dtype(indices))), TryFrom.try_from(scalar_at(chunk_offsets(chunked), [find_chunk_idx(chunked, TryFrom.try_from(scalar_at(indices, L))).0 + 1])))}))))
@ vortex::array::chunked::compute::take::take_strict_sorted args=chunked,indices loops=0 soft=1 calls=index_mut voc=search_sorted,slice,subtract_scalar n=1
index_mut(L, find_chunk_idx(chunked, TryFrom.try_from(scalar_at(indices, L))).0)
@ vortex::compute::take::take args=array,indices show=is_int|nullab voc=is_int,is_nullable errs=1 calls=take under=all
take(array)
take(array@*) <- take(array) is None
take(take(array), indices) <- take(array) is Some
take(take(array@*), indices) <- take(array) is None
@ vortex::array::chunked::compute::take::take_strict_sorted args=chunked,indices calls=slice#1 voc=search_sorted,find_chunk_idx,scalar_at,chunk_offsets
slice(loop{0 | len(indices) | search_sorted(indices, TryFrom.try_from(scalar_at(chunk_offsets(chunked), [find_chunk_idx(chunked, TryFrom.try_from(scalar_at(indices, loop))).0 + 1])), Left)@Found.0 | search_sorted(indices, TryFrom.try_from(scalar_at(chunk_offsets(chunked), [find_chunk_idx(chunked, TryFrom.try_from(scalar_at(indices, loop))).0 + 1])), Left)@NotFound.0})
@ <vortex::array::chunked::ChunkedArray as vortex::compute::take::TakeFn>::take args=self,indices calls=take#1 voc=chunks,chunk,chunk_offsets,find_chunk_idx,take_strict_sorted
take(loop{afresh | each(find_chunk_idx(self, elem(maybe_null_slice(try_cast(indices, Primitive(U64, NonNullable))))).1)})
'''.replace('%S%', S)
SPARSE = '''
@ <vortex::array::sparse::SparseArray as %S%>::take args=self,indices
SparseArray.try_new({take_map(self, indices) <- Lt(128, len(indices)) | take_search_sorted(self, indices) <- !Lt(128, len(indices))}.0, take(values(self), {take_map(self, indices) <- Lt(128, len(indices)) | take_search_sorted(self, indices) <- !Lt(128, len(indices))}.1), len(indices), fill_value(self))
@ vortex::array::sparse::compute::take::take_map args=array,indices ptype=I32 soft=1
(PrimitiveArray.from_vec(unzip(fmap(filtered(enumerate(each(elem(maybe_null_slice(indices)))), and(!Lt(elem(maybe_null_slice(indices)), or(min_index(array), 0)), !Lt(or(max_index(array), 0), elem(maybe_null_slice(indices))))), (pos(indices), get(each((elem(resolved_indices(array)), pos(resolved_indices(array)))), elem(maybe_null_slice(indices)))))).0, NonNullable), PrimitiveArray.from_vec(unzip(fmap(filtered(enumerate(each(elem(maybe_null_slice(indices)))), and(!Lt(elem(maybe_null_slice(indices)), or(min_index(array), 0)), !Lt(or(max_index(array), 0), elem(maybe_null_slice(indices))))), (pos(indices), get(each((elem(resolved_indices(array)), pos(resolved_indices(array)))), elem(maybe_null_slice(indices)))))).1, NonNullable))
@ vortex::array::sparse::compute::take::take_search_sorted args=array,indices ptype=I32 soft=1
(PrimitiveArray.from_vec(unzip(filter_map_ok(each((pos(indices), to_found(search_index(array, elem(maybe_null_slice(indices))))) if and(!Lt(elem(maybe_null_slice(indices)), or(min_index(array), 0)), !Lt(or(max_index(array), 0), elem(maybe_null_slice(indices))))), fn:identity)).0, NonNullable), PrimitiveArray.from_vec(unzip(filter_map_ok(each((pos(indices), to_found(search_index(array, elem(maybe_null_slice(indices))))) if and(!Lt(elem(maybe_null_slice(indices)), or(min_index(array), 0)), !Lt(or(max_index(array), 0), elem(maybe_null_slice(indices))))), fn:identity)).1, NonNullable))
'''.replace('%S%', S)
VARBIN = '''
@ <vortex::array::varbin::VarBinArray as %S%>::take args=self,indices ptype=I32
take(dtype(self), maybe_null_slice(offsets(self)), maybe_null_slice(bytes(self)), maybe_null_slice(indices), validity(self))
@ vortex::array::varbin::compute::take::take args=dtype,offsets,data,indices,validity soft=1 voc=push
or(take_nullable(dtype, offsets, data, indices, to_null_buffer(to_logical(validity, [len(offsets) - 1]))), finish(loop{VarBinBuilder.with_capacity() | each(index(data, to_usize(index(offsets, to_usize(elem(indices))))..to_usize(index(offsets, [to_usize(elem(indices)) + 1]))))}, dtype))
@ vortex::array::varbin::compute::take::take_nullable args=dtype,offsets,data,indices,nulls soft=1 voc=push
finish(loop{VarBinBuilder.with_capacity() | each(None) | each(index(data, to_usize(index(offsets, to_usize(elem(indices))))..to_usize(index(offsets, [to_usize(elem(indices)) + 1]))))}, dtype)
@ vortex::array::varbin::compute::take::take_nullable args=dtype,offsets,data,indices,nulls soft=1 calls=push#1 under=1 voc=finish,VarBinBuilder.with_capacity n=2
push(None) <- !is_valid(nulls, to_usize(elem(indices)))
push(index(data, to_usize(index(offsets, to_usize(elem(indices))))..to_usize(index(offsets, [to_usize(elem(indices)) + 1])))) <- is_valid(nulls, to_usize(elem(indices)))
'''.replace('%S%', S)
BITPACK = '''
@ <vortex_fastlanes::bitpacking::BitPackedArray as %S%>::take args=self,indices ptype=U32 types=U64
reinterpret_cast(PrimitiveArray.from_vec(take_primitive(self, indices), take(validity(self), indices)), U32) <- !Lt(len(self), [8*len(indices)])
take(self, indices) <- Lt(len(self), [8*len(indices)])
@ vortex_fastlanes::bitpacking::compute::take::take_primitive args=array,indices loops=0 soft=1 under=all calls=unchecked_unpack#0,1 n=1
unchecked_unpack(bit_width(array), index(packed_slice(array), div([128*bit_width(array)], size_of())*elem(chunk_by(each([offset(array) + to_usize(elem(maybe_null_slice(indices)))]), fn(div($0, 1024)))).0..[div([128*bit_width(array)], size_of())*elem(chunk_by(each([offset(array) + to_usize(elem(maybe_null_slice(indices)))]), fn(div($0, 1024)))).0 + div([128*bit_width(array)], size_of())])) <- !Eq(0, len(indices))
@ vortex_fastlanes::bitpacking::compute::take::take_primitive args=array,indices loops=0 soft=1 under=all calls=patch_for_take_primitive n=1
patch_for_take_primitive(TryFrom.try_from(patches(array)), indices, L) <- !Eq(0, len(indices)) & patches(array) is Some
@ vortex_fastlanes::bitpacking::compute::take::take_primitive args=array,indices loops=0 soft=1 under=all calls=push#1 voc=patch_for_take_primitive n=3
push(index(L, elem(into_remainder(array_chunks(each(rem(elem(elem(chunk_by(each([offset(array) + to_usize(elem(maybe_null_slice(indices)))]), fn(div($0, 1024)))).1), 1024))))))) <- !Eq(0, len(indices))
push(index({L | L.unchecked_unpack(bit_width(array), index(packed_slice(array), div([128*bit_width(array)], size_of())*elem(chunk_by(each([offset(array) + to_usize(elem(maybe_null_slice(indices)))]), fn(div($0, 1024)))).0..[div([128*bit_width(array)], size_of())*elem(chunk_by(each([offset(array) + to_usize(elem(maybe_null_slice(indices)))]), fn(div($0, 1024)))).0 + div([128*bit_width(array)], size_of())]))}, elem(elem(array_chunks(each(rem(elem(elem(chunk_by(each([offset(array) + to_usize(elem(maybe_null_slice(indices)))]), fn(div($0, 1024)))).1), 1024))))))) <- !Eq(0, len(indices))
push(unpack_single_primitive(index(packed_slice(array), div([128*bit_width(array)], size_of())*elem(chunk_by(each([offset(array) + to_usize(elem(maybe_null_slice(indices)))]), fn(div($0, 1024)))).0..[div([128*bit_width(array)], size_of())*elem(chunk_by(each([offset(array) + to_usize(elem(maybe_null_slice(indices)))]), fn(div($0, 1024)))).0 + div([128*bit_width(array)], size_of())]), bit_width(array), elem(into_remainder(array_chunks(each(rem(elem(elem(chunk_by(each([offset(array) + to_usize(elem(maybe_null_slice(indices)))]), fn(div($0, 1024)))).1), 1024))))))) <- !Eq(0, len(indices))
@ vortex_fastlanes::bitpacking::compute::take::patch_for_take_primitive args=patches,indices,output soft=1 under=all calls=take n=1
take(patches, indices)
'''.replace('%S%', S)
VIEW = '''
@ <vortex::array::varbinview::VarBinViewArray as %S%>::take args=self,indices voc=varbinview_as_arrow
Arc.from_arrow(take(varbinview_as_arrow(self), into_arrow(indices), None), nullability(dtype(self)) is Nullable)
'''.replace('%S%', S)
def run(c):
    for kind, t in (('take', TABLE), ('take: chunked', CHUNK), ('take: sparse', SPARSE), ('take: varbin', VARBIN), ('take: bit-packed', BITPACK), ('take: view', VIEW)):
        spec.check(c, kind, t, 'must gather the indexed rows')
    have = {p for p in c.F.bodies if p.endswith(S + '>::take')}
    listed = {b.path for t in (TABLE, CHUNK, SPARSE, VARBIN, BITPACK, VIEW) for b in spec.parse(t)}
    for p in sorted(have - listed): c.notes.append('take implementation outside the table (not judged): ' + p)
    c.floor('take (functions)', 17)
