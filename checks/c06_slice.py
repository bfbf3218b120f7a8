from lib import *
import spec, arr
ID = 'C06'
TITLE = 'Slicing an array selects the same rows of every component'
RULE = ('the normal form of every SliceFn::slice (interprocedural symbolic term, helpers expanded, arithmetic as polynomials) is compared with the form that denotes rows [start,stop): every row-aligned component '
        'is sliced by the same logical bounds, run/offset/patch components by the positions found for start and stop, per-array components are kept, the new length is stop-start and offsets move by start')
S = 'vortex::compute::slice::SliceFn'
TABLE = '''
@ <vortex::array::bool::BoolArray as %S%>::slice args=self,start,stop
BoolArray.try_new(slice(boolean_buffer(self), start, [-start + stop]), slice(validity(self), start, stop))
@ <vortex::array::chunked::ChunkedArray as %S%>::slice args=self,start,stop under=all each=1 calls=slice n=3
slice(chunk(self, find_chunk_idx(self, start).0), find_chunk_idx(self, start).1, find_chunk_idx(self, stop).1) <- !Eq(0, nchunks(self)) & Eq(find_chunk_idx(self, start).0, find_chunk_idx(self, stop).0)
slice(first_mut(each(chunk(self, elem(find_chunk_idx(self, start).0..[find_chunk_idx(self, stop).0 + 1])))), find_chunk_idx(self, start).1, len(first_mut(each(chunk(self, elem(find_chunk_idx(self, start).0..[find_chunk_idx(self, stop).0 + 1])))))) <- !Eq(0, nchunks(self)) & !Eq(find_chunk_idx(self, start).0, find_chunk_idx(self, stop).0) & first_mut(each(chunk(self, elem(find_chunk_idx(self, start).0..[find_chunk_idx(self, stop).0 + 1])))) is Some
slice(last_mut(each(chunk(self, elem(find_chunk_idx(self, start).0..[find_chunk_idx(self, stop).0 + 1]))).first_mut()), 0, find_chunk_idx(self, stop).1) <- !Eq(0, find_chunk_idx(self, stop).1) & !Eq(0, nchunks(self)) & !Eq(find_chunk_idx(self, start).0, find_chunk_idx(self, stop).0) & last_mut(each(chunk(self, elem(find_chunk_idx(self, start).0..[find_chunk_idx(self, stop).0 + 1]))).first_mut()) is Some
@ <vortex::array::chunked::ChunkedArray as %S%>::slice args=self,start,stop
ChunkedArray.try_new([slice(chunk(self, find_chunk_idx(self, start).0), find_chunk_idx(self, start).1, find_chunk_idx(self, stop).1)], dtype(self)) <- !Eq(0, nchunks(self)) & Eq(find_chunk_idx(self, start).0, find_chunk_idx(self, stop).0)
ChunkedArray.try_new({each(chunk(self, elem(find_chunk_idx(self, start).0..[find_chunk_idx(self, stop).0 + 1]))).first_mut().last_mut() <- !Eq(0, find_chunk_idx(self, stop).1) | each(chunk(self, elem(find_chunk_idx(self, start).0..[find_chunk_idx(self, stop).0 + 1]))).first_mut().pop() <- Eq(0, find_chunk_idx(self, stop).1)}, dtype(self)) <- !Eq(0, nchunks(self)) & !Eq(find_chunk_idx(self, start).0, find_chunk_idx(self, stop).0)
self <- Eq(0, nchunks(self))
@ <vortex::array::constant::ConstantArray as %S%>::slice args=self,start,stop
ConstantArray.new(owned_scalar(self), [-start + stop])
@ <vortex::array::extension::ExtensionArray as %S%>::slice args=self,start,stop
ExtensionArray.new(dtype(self)@Extension.0, slice(storage(self), start, stop))
@ <vortex::array::null::NullArray as %S%>::slice args=self,start,stop
NullArray.new([-start + stop])
@ <vortex::array::primitive::PrimitiveArray as %S%>::slice args=self,start,stop
PrimitiveArray.new(slice(buffer(self), byte_width(ptype(self))*start..byte_width(ptype(self))*stop), ptype(self), slice(validity(self), start, stop))
@ <vortex::array::sparse::SparseArray as %S%>::slice args=self,start,stop voc=to_index
SparseArray.try_new_with_offset(slice(indices(self), to_index(search_index(self, start)), to_index(search_index(self, stop))), slice(values(self), to_index(search_index(self, start)), to_index(search_index(self, stop))), [-start + stop], [indices_offset(self) + start], fill_value(self))
@ <vortex::array::struct_::StructArray as %S%>::slice args=self,start,stop
StructArray.try_new(dtype(self)@Struct.0.names, each(slice(elem(children(self)), start, stop)), [-start + stop], slice(validity(self), start, stop))
@ <vortex::array::varbin::VarBinArray as %S%>::slice args=self,start,stop
VarBinArray.try_new(slice(offsets(self), start, [stop + 1]), bytes(self), dtype(self), slice(validity(self), start, stop))
@ <vortex::array::varbinview::VarBinViewArray as %S%>::slice args=self,start,stop
VarBinViewArray.try_new(slice(views(self), [16*start], [16*stop]), each(buffer(self, pos(buffer_lens(self)))), dtype(self), slice(validity(self), start, stop))
@ <vortex_alp::alp::array::ALPArray as %S%>::slice args=self,start,stop
ALPArray.try_new(slice(encoded(self), start, stop), exponents(self), slice(patches(self), start, stop))
@ <vortex_alp::alp_rd::array::ALPRDArray as %S%>::slice args=self,start,stop
ALPRDArray.try_new(dtype(self), slice(left_parts(self), start, stop), left_parts_dict(self), slice(right_parts(self), start, stop), right_bit_width(self), slice(left_parts_exceptions(self), start, stop))
@ <vortex_bytebool::array::ByteBoolArray as %S%>::slice args=self,start,stop
ByteBoolArray.try_new(slice(buffer(self), start..stop), slice(validity(self), start, stop))
@ <vortex_datetime_parts::array::DateTimePartsArray as %S%>::slice args=self,start,stop
DateTimePartsArray.try_new(dtype(self), slice(days(self), start, stop), slice(seconds(self), start, stop), slice(subsecond(self), start, stop))
@ <vortex_dict::array::DictArray as %S%>::slice args=self,start,stop
DictArray.try_new(slice(codes(self), start, stop), values(self))
@ <vortex_fastlanes::bitpacking::BitPackedArray as %S%>::slice args=self,start,stop voc=is_empty
BitPackedArray.try_new_from_offset(slice(packed(self), bit_width(self)*div([1024*div([offset(self) + start], 1024)], 8)..bit_width(self)*div([1024*div([offset(self) + stop + 1023], 1024)], 8)), ptype(self), slice(validity(self), start, stop), optfilter(slice(patches(self), start, stop), !Eq(0, len(child(TryFrom.try_from(slice(patches(self), start, stop)), 0, Primitive(U64, NonNullable), indices_len(TryFrom.try_from(slice(patches(self), start, stop))))))), bit_width(self), [-start + stop], as_u16(rem([offset(self) + start], 1024)))
@ <vortex_fastlanes::delta::DeltaArray as %S%>::slice args=self,start,stop
DeltaArray.try_new(slice(bases(self), min(bases_len(self), div([offset(self) + start], 1024)*lanes(self)), min(bases_len(self), div_ceil([offset(self) + stop], 1024)*lanes(self))), slice(deltas(self), min([1024*div([offset(self) + start], 1024)], deltas_len(self)), min([1024*div_ceil([offset(self) + stop], 1024)], deltas_len(self))), slice(validity(self), start, stop), rem([offset(self) + start], 1024), [-start + stop])
@ <vortex_fastlanes::for::FoRArray as %S%>::slice args=self,start,stop
FoRArray.try_new(slice(encoded(self), start, stop), Scalar(dtype(self), reference(self)), shift(self))
@ <vortex_fsst::array::FSSTArray as %S%>::slice args=self,start,stop
FSSTArray.try_new(dtype(self), symbols(self), symbol_lengths(self), slice(codes(self), start, stop), slice(uncompressed_lengths(self), start, stop))
@ <vortex_roaring::boolean::RoaringBoolArray as %S%>::slice args=self,start,stop
RoaringBoolArray.try_new(add_offset(and(bitmap(self), Bitmap.from_range(as_u32(start)..as_u32(stop))), un(Neg, start)), [-start + stop])
@ <vortex_roaring::integer::RoaringIntArray as %S%>::slice args=self,start,stop
RoaringIntArray.try_new(Bitmap.new(), ptype(self)) <- Eq(start, stop)
RoaringIntArray.try_new(owned_bitmap(self).and_inplace(Bitmap.from_range(select(owned_bitmap(self), as_u32(start))..[{or(maximum(owned_bitmap(self)), 0) <- Eq(len(self), stop) | select(owned_bitmap(self), as_u32(saturating_sub(stop, 1))) <- !Eq(len(self), stop)} + 1])), ptype(self)) <- !Eq(start, stop)
@ <vortex_runend::array::RunEndArray as %S%>::slice args=self,start,stop
RunEndArray.with_offset_and_length(slice(ends(self), {0 <- Eq(start, stop) | find_physical_index(self, start) <- !Eq(start, stop)}, {0 <- Eq(start, stop) | [find_physical_index(self, stop) + 1] <- !Eq(start, stop)}), slice(values(self), {0 <- Eq(start, stop) | find_physical_index(self, start) <- !Eq(start, stop)}, {0 <- Eq(start, stop) | [find_physical_index(self, stop) + 1] <- !Eq(start, stop)}), slice(validity(self), start, stop), [offset(self) + start], [-start + stop])
@ <vortex_runend_bool::array::RunEndBoolArray as %S%>::slice args=self,start,stop
RunEndBoolArray.with_offset_and_size(slice(ends(self), find_physical_index(self, start), [find_physical_index(self, stop) + 1]), !and(!and(!Eq(0, rem(find_physical_index(self, start), 2)), !start(self)), !and(Eq(0, rem(find_physical_index(self, start), 2)), start(self))), slice(validity(self), start, stop), [-start + stop], [offset(self) + start])
@ <vortex_zigzag::array::ZigZagArray as %S%>::slice args=self,start,stop
ZigZagArray.try_new(slice(encoded(self), start, stop))
'''.replace('%S%', S)
# positions: where a logical row is found in run ends, sparse indices and chunks, under the array's own offset
POS = '''
@ <vortex_runend::array::RunEndArray>::find_physical_index args=self,row
to_ends_index(search_sorted(ends(self), [offset(self) + row], Right), len(ends(self)))
@ <vortex_runend_bool::array::RunEndBoolArray>::find_physical_index args=self,row
to_ends_index(search_sorted(ends(self), [offset(self) + row], Right), len(ends(self)))
@ <vortex::array::sparse::SparseArray>::search_index args=self,row
search_sorted(indices(self), [indices_offset(self) + row], Left)
@ <vortex::array::chunked::ChunkedArray>::find_chunk_idx args=self,row
(saturating_sub(to_ends_index(search_sorted(chunk_offsets(self), row, Right), [nchunks(self) + 1]), 1), [-TryFrom.try_from(scalar_at(chunk_offsets(self), saturating_sub(to_ends_index(search_sorted(chunk_offsets(self), row, Right), [nchunks(self) + 1]), 1))) + row])
@ <vortex::compute::search_sorted::SearchResult>::to_index args=self
self@*
@ <vortex::compute::search_sorted::SearchResult>::to_ends_index args=self,n voc=to_index
[to_index(self) - 1] <- Eq(n, to_index(self))
to_index(self) <- !Eq(n, to_index(self))
@ <vortex::validity::Validity>::slice args=self,start,stop
Array(slice(self@Array.0, start, stop)) <- self is Array
self <- self is AllInvalid|AllValid|NonNullable
'''
ENTRY = '''
@ vortex::compute::slice::slice args=array,start,stop calls=slice under=1 n=2
slice(array) <- !Lt(len(array), start) & !Lt(len(array), stop) & !Lt(stop, start)
slice(slice(array), start, stop) <- !Lt(len(array), start) & !Lt(len(array), stop) & !Lt(stop, start)
'''
def run(c):
    for b in spec.parse(TABLE): pass
    have = {p for p in c.F.bodies if p.endswith(S + '>::slice')}
    spec.check(c, 'slice', TABLE, 'must denote rows [start,stop) of the array')
    spec.check(c, 'row position', POS, 'must locate the logical row')
    spec.check(c, 'entry point', ENTRY, 'must dispatch only after checking the bounds')
    listed = {b.path for b in spec.parse(TABLE)}
    for p in sorted(have - listed):
        if not any(x in p for x in ('bench', 'fuzz', 'pyvortex')): c.notes.append('slice implementation outside the table (not judged): ' + p)
    c.floor('slice (functions)', 24)
