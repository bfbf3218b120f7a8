from lib import *
import spec
ID = 'C08'
TITLE = 'Filtering keeps exactly the selected rows, in order'
RULE = ('the normal form of filter(), of every FilterFn::filter and of the gather helpers and boolean iterators behind it is compared with the form that denotes the rows whose predicate bit is set: '
        'row-aligned components filtered with the same predicate, per-array components kept, the length equal to the number of set bits, and the entry point rejecting nullable predicates and predicates of another length')
COMPONENT = r'''
@ vortex::compute::filter::filter args=array,predicate calls=filter under=1 n=4
filter(array) <- Eq(Bool(NonNullable), dtype(predicate)) & Eq(len(array), len(predicate))
filter(array, predicate) <- Eq(Bool(NonNullable), dtype(predicate)) & Eq(len(array), len(predicate))
filter(filter(array), predicate) <- Eq(Bool(NonNullable), dtype(predicate)) & Eq(len(array), len(predicate))
filter(into_arrow(array), as_boolean(into_arrow(predicate))) <- Eq(Bool(NonNullable), dtype(predicate)) & Eq(len(array), len(predicate))
@ <vortex::array::constant::ConstantArray as vortex::compute::filter::FilterFn>::filter args=self,predicate voc=true_count,as_bool_array
ConstantArray.new(owned_scalar(self), true_count(as_bool_array(predicate)))
@ <vortex::array::struct_::StructArray as vortex::compute::filter::FilterFn>::filter args=self,predicate
StructArray.try_new(dtype(self)@Struct.0.names, each(filter(elem(children(self)), predicate)), or(or_(len(first(each(filter(elem(children(self)), predicate)))), TryFrom.try_from(compute(predicate@*, TrueCount))), 0), filter(validity(self), predicate))
@ <vortex_alp::alp::array::ALPArray as vortex::compute::filter::FilterFn>::filter args=self,predicate
ALPArray.try_new(filter(encoded(self), predicate), exponents(self), filter(patches(self), predicate))
@ <vortex_alp::alp_rd::array::ALPRDArray as vortex::compute::filter::FilterFn>::filter args=self,predicate
ALPRDArray.try_new(dtype(self), filter(left_parts(self), predicate), left_parts_dict(self), filter(right_parts(self), predicate), right_bit_width(self), filter(left_parts_exceptions(self), predicate))
@ <vortex_dict::array::DictArray as vortex::compute::filter::FilterFn>::filter args=self,predicate
DictArray.try_new(filter(codes(self), predicate), values(self))
@ <vortex_fastlanes::for::FoRArray as vortex::compute::filter::FilterFn>::filter args=self,predicate
FoRArray.try_new(filter(encoded(self), predicate), owned_reference_scalar(self), shift(self))
@ <vortex_fsst::array::FSSTArray as vortex::compute::filter::FilterFn>::filter args=self,predicate
FSSTArray.try_new(dtype(self), symbols(self), symbol_lengths(self), filter(codes(self), predicate), filter(uncompressed_lengths(self), predicate))
@ <vortex::validity::Validity>::filter args=self,predicate
Array(filter(self@Array.0, predicate)) <- self is Array
self <- self is AllInvalid|AllValid|NonNullable
'''
GATHER = r'''
@ <vortex::array::bool::BoolArray as vortex::compute::filter::FilterFn>::filter args=self,predicate under=all calls=append_buffer loops=0 voc=as_bool_array,true_count,maybe_null_indices_iter,maybe_null_slices_iter,boolean_buffer n=1
append_buffer(L, slice(boolean_buffer(self), elem(maybe_null_slices_iter(as_bool_array(predicate))).0, [-elem(maybe_null_slices_iter(as_bool_array(predicate))).0 + elem(maybe_null_slices_iter(as_bool_array(predicate))).1])) <- Lt(len(self), [2*true_count(as_bool_array(predicate))])
@ <vortex::array::bool::BoolArray as vortex::compute::filter::FilterFn>::filter args=self,predicate under=all calls=filter voc=as_bool_array,true_count,maybe_null_indices_iter,maybe_null_slices_iter,boolean_buffer n=1
filter(validity(self), predicate)
@ <vortex::array::bool::BoolArray as vortex::compute::filter::FilterFn>::filter args=self,predicate under=all calls=append loops=0 voc=as_bool_array,true_count,maybe_null_indices_iter,maybe_null_slices_iter,boolean_buffer n=1
append(loop{BooleanBufferBuilder.new(true_count(as_bool_array(predicate))) | each(value(boolean_buffer(self), elem(maybe_null_indices_iter(as_bool_array(predicate)))))}, value(boolean_buffer(self), elem(maybe_null_indices_iter(as_bool_array(predicate))))) <- !Lt(len(self), [2*true_count(as_bool_array(predicate))])
@ vortex::array::bool::compute::filter::filter_select_bool_by_index args=values,predicate,count
finish(loop{BooleanBufferBuilder.new(count) | each(value(values, elem(maybe_null_indices_iter(predicate))))})
@ vortex::array::bool::compute::filter::filter_select_bool_by_slice args=values,predicate,count voc=slice
finish(loop{BooleanBufferBuilder.new(count) | loop.append_buffer(slice(values, elem(maybe_null_slices_iter(predicate)).0, [-elem(maybe_null_slices_iter(predicate)).0 + elem(maybe_null_slices_iter(predicate)).1]))})
@ vortex::array::bool::compute::filter::filter_select_bool_by_slice args=values,predicate,count under=all calls=append_buffer#1 n=1
append_buffer(slice(values, elem(maybe_null_slices_iter(predicate)).0, [-elem(maybe_null_slices_iter(predicate)).0 + elem(maybe_null_slices_iter(predicate)).1]))
@ <vortex::array::primitive::PrimitiveArray as vortex::compute::filter::FilterFn>::filter args=self,predicate ptype=I32 voc=as_bool_array,true_count,filter_primitive_slice,maybe_null_indices_iter,maybe_null_slices_iter
PrimitiveArray.from_vec(filter_primitive_slice(maybe_null_slice(self), as_bool_array(predicate), true_count(as_bool_array(predicate))), filter(validity(self), predicate))
@ vortex::array::primitive::compute::filter::filter_primitive_slice args=values,predicate,count voc=maybe_null_indices_iter,maybe_null_slices_iter loops=0 under=all calls=extend n=1
extend(Vec.with_capacity(), each(index(values, elem(maybe_null_indices_iter(predicate))))) <- !Lt(len(predicate), [2*count])
@ vortex::array::primitive::compute::filter::filter_primitive_slice args=values,predicate,count voc=maybe_null_indices_iter,maybe_null_slices_iter,extend_from_slice loops=0 under=all calls=extend_from_slice n=1
extend_from_slice(L, index(values, elem(maybe_null_slices_iter(predicate)).0..elem(maybe_null_slices_iter(predicate)).1)) <- Lt(len(predicate), [2*count])
'''
VARBIN = r'''
@ <vortex::array::varbin::VarBinArray as vortex::compute::filter::FilterFn>::filter args=self,predicate ptype=I32 under=all calls=filter_select_var_bin_by_slice_primitive_offset voc=as_bool_array,true_count n=1
filter_select_var_bin_by_slice_primitive_offset(dtype(self), maybe_null_slice(offsets(self)), maybe_null_slice(bytes(self)), as_bool_array(predicate), validity(self), true_count(as_bool_array(predicate))) <- Lt(len(as_bool_array(predicate)), [2*true_count(as_bool_array(predicate))])
@ <vortex::array::varbin::VarBinArray as vortex::compute::filter::FilterFn>::filter args=self,predicate ptype=I32 under=all calls=filter_select_var_bin_by_index_primitive_offset voc=as_bool_array,true_count n=1
filter_select_var_bin_by_index_primitive_offset(dtype(self), maybe_null_slice(offsets(self)), maybe_null_slice(bytes(self)), as_bool_array(predicate), validity(self), true_count(as_bool_array(predicate))) <- !Lt(len(as_bool_array(predicate)), [2*true_count(as_bool_array(predicate))])
@ <vortex::array::varbin::VarBinArray as vortex::compute::filter::FilterFn>::filter args=self,predicate ptype=I32 voc=filter_select_var_bin_by_slice_primitive_offset,filter_select_var_bin_by_index_primitive_offset,true_count,as_bool_array guards=0
{filter_select_var_bin_by_index_primitive_offset(dtype(self), maybe_null_slice(offsets(self)), maybe_null_slice(bytes(self)), as_bool_array(predicate), validity(self), true_count(as_bool_array(predicate))) <- !Lt(len(as_bool_array(predicate)), [2*true_count(as_bool_array(predicate))]) | filter_select_var_bin_by_slice_primitive_offset(dtype(self), maybe_null_slice(offsets(self)), maybe_null_slice(bytes(self)), as_bool_array(predicate), validity(self), true_count(as_bool_array(predicate))) <- Lt(len(as_bool_array(predicate)), [2*true_count(as_bool_array(predicate))])}
@ vortex::array::varbin::compute::filter::filter_select_var_bin_by_slice_primitive_offset args=dtype,offsets,data,predicate,validity,count loops=0 calls=push_value under=1 voc=maybe_null_slices_iter,to_null_buffer,update_non_nullable_slice,push_null n=1
push_value(L, index(data, to_usize(index(offsets, [elem(maybe_null_slices_iter(predicate)).0 + pos(slice(to_null_buffer(to_logical(validity, [len(offsets) - 1])), elem(maybe_null_slices_iter(predicate)).0, [-elem(maybe_null_slices_iter(predicate)).0 + elem(maybe_null_slices_iter(predicate)).1]))]))..to_usize(index(offsets, [elem(maybe_null_slices_iter(predicate)).0 + pos(slice(to_null_buffer(to_logical(validity, [len(offsets) - 1])), elem(maybe_null_slices_iter(predicate)).0, [-elem(maybe_null_slices_iter(predicate)).0 + elem(maybe_null_slices_iter(predicate)).1])) + 1])))) <- !Eq(0, null_count(slice(to_null_buffer(to_logical(validity, [len(offsets) - 1])), elem(maybe_null_slices_iter(predicate)).0, [-elem(maybe_null_slices_iter(predicate)).0 + elem(maybe_null_slices_iter(predicate)).1]))) & Lt([elem(maybe_null_slices_iter(predicate)).0 + pos(slice(to_null_buffer(to_logical(validity, [len(offsets) - 1])), elem(maybe_null_slices_iter(predicate)).0, [-elem(maybe_null_slices_iter(predicate)).0 + elem(maybe_null_slices_iter(predicate)).1])) + 1], len(offsets)) & Lt([elem(maybe_null_slices_iter(predicate)).0 + pos(slice(to_null_buffer(to_logical(validity, [len(offsets) - 1])), elem(maybe_null_slices_iter(predicate)).0, [-elem(maybe_null_slices_iter(predicate)).0 + elem(maybe_null_slices_iter(predicate)).1]))], len(offsets))
@ vortex::array::varbin::compute::filter::filter_select_var_bin_by_slice_primitive_offset args=dtype,offsets,data,predicate,validity,count loops=0 under=all calls=update_non_nullable_slice#0,1,3,4 voc=maybe_null_slices_iter,to_null_buffer,push_null n=2
update_non_nullable_slice(data, offsets, elem(maybe_null_slices_iter(predicate)).0, elem(maybe_null_slices_iter(predicate)).1) <- Eq(0, null_count(slice(to_null_buffer(to_logical(validity, [len(offsets) - 1])), elem(maybe_null_slices_iter(predicate)).0, [-elem(maybe_null_slices_iter(predicate)).0 + elem(maybe_null_slices_iter(predicate)).1])))
update_non_nullable_slice(data, offsets, elem(maybe_null_slices_iter(predicate)).0, elem(maybe_null_slices_iter(predicate)).1) <- to_null_buffer(to_logical(validity, [len(offsets) - 1])) is None
@ vortex::array::varbin::compute::filter::filter_select_var_bin_by_index_primitive_offset args=dtype,offsets,data,predicate,validity,count loops=0 calls=push#1 under=1 voc=maybe_null_indices_iter,push_null n=2
push(index(data, to_usize(index(offsets, elem(maybe_null_indices_iter(predicate))))..to_usize(index(offsets, [elem(maybe_null_indices_iter(predicate)) + 1])))) <- Lt([elem(maybe_null_indices_iter(predicate)) + 1], len(offsets)) & Lt(elem(maybe_null_indices_iter(predicate)), len(offsets)) & is_valid(validity, elem(maybe_null_indices_iter(predicate)))
push(zero())
@ vortex::array::varbin::compute::filter::filter_select_var_bin_by_index_primitive_offset args=dtype,offsets,data,predicate,validity,count loops=0 calls=push_null under=1 voc=maybe_null_indices_iter n=1
push_null(L) <- !is_valid(validity, elem(maybe_null_indices_iter(predicate)))
@ vortex::array::varbin::compute::filter::filter_select_var_bin_by_index_primitive_offset args=dtype,offsets,data,predicate,validity,count loops=0 voc=finish
finish(L, dtype)
@ vortex::array::varbin::compute::filter::filter_select_var_bin_by_slice_primitive_offset args=dtype,offsets,data,predicate,validity,count loops=0 voc=finish
finish(L, dtype)
@ vortex::array::varbin::compute::filter::update_non_nullable_slice args=data,offsets,builder,start,end under=all calls=push_values n=1
push_values(builder, index(data, to_usize(index(offsets, start))..to_usize(index(offsets, end))), dropping(each([elem(index(offsets, start..[end + 1])) - index(offsets, start)]), 1), [end - start])
@ <vortex::array::varbin::builder::VarBinBuilder<O>>::with_capacity args=len
VarBinBuilder(Vec.with_capacity().push(zero()), BytesMut.new(), NullBufferBuilder.new(len))
@ <vortex::array::varbin::builder::VarBinBuilder<O>>::finish args=self,dtype
VarBinArray.try_new(PrimitiveArray.from_vec(self.offsets, NonNullable), PrimitiveArray.from_bytes(freeze(self.data), NonNullable), dtype, {nullability(dtype) <- nullability(dtype) is NonNullable | or({AllInvalid <- !Eq(count_set_bits(finish(self.validity)), len(finish(self.validity))) & Eq(0, count_set_bits(finish(self.validity))) | AllValid <- Eq(count_set_bits(finish(self.validity)), len(finish(self.validity))) | Array(BoolArray.try_new(finish(self.validity), NonNullable)) <- !Eq(0, count_set_bits(finish(self.validity))) & !Eq(count_set_bits(finish(self.validity)), len(finish(self.validity)))}, AllValid) <- nullability(dtype) is Nullable})
@ <vortex::array::varbin::builder::VarBinBuilder<O>>::push args=self,value voc=push_value,push_null
or(push_value(self, value), push_null(self))
@ <vortex::array::varbin::builder::VarBinBuilder<O>>::push_value args=self,value under=all calls=push n=1
push(self.offsets, [len(self.data) + len(value)])
@ <vortex::array::varbin::builder::VarBinBuilder<O>>::push_value args=self,value under=all calls=extend_from_slice n=1
extend_from_slice(self.data, value)
@ <vortex::array::varbin::builder::VarBinBuilder<O>>::push_value args=self,value under=all calls=append_non_null n=1
append_non_null(self.validity)
@ <vortex::array::varbin::builder::VarBinBuilder<O>>::push_null args=self under=all calls=push n=1
push(self.offsets, index(self.offsets, [len(self.offsets) - 1]))
@ <vortex::array::varbin::builder::VarBinBuilder<O>>::push_null args=self under=all calls=append_null n=1
append_null(self.validity)
@ <vortex::array::varbin::builder::VarBinBuilder<O>>::push_values args=self,values,end_offsets,num under=all calls=extend n=1
extend(self.offsets, each([elem(end_offsets) + len(self.data)]))
@ <vortex::array::varbin::builder::VarBinBuilder<O>>::push_values args=self,values,end_offsets,num under=all calls=extend_from_slice n=1
extend_from_slice(self.data, values)
@ <vortex::array::varbin::builder::VarBinBuilder<O>>::push_values args=self,values,end_offsets,num under=all calls=append_n_non_nulls n=1
append_n_non_nulls(self.validity, num)
'''
SPARSE = r'''
@ <vortex::array::sparse::SparseArray as vortex::compute::filter::FilterFn>::filter args=self,predicate calls=push#1 under=1 ptype=I32 voc=resolved_indices,value,count_set_bits,boolean_buffer n=2
push([count_set_bits(slice(boolean_buffer(predicate), loop{0 | [elem(maybe_null_slice(indices(self))) - indices_offset(self)] <- value(boolean_buffer(predicate), [elem(maybe_null_slice(indices(self))) - indices_offset(self)])}, [elem(maybe_null_slice(indices(self))) - indices_offset(self) - loop{0 | [elem(maybe_null_slice(indices(self))) - indices_offset(self)] <- value(boolean_buffer(predicate), [elem(maybe_null_slice(indices(self))) - indices_offset(self)])}])) + or(last(each(loop)), 0)]) <- value(boolean_buffer(predicate), [elem(maybe_null_slice(indices(self))) - indices_offset(self)])
push(pos(indices(self))) <- value(boolean_buffer(predicate), [elem(maybe_null_slice(indices(self))) - indices_offset(self)])
@ <vortex::array::sparse::SparseArray as vortex::compute::filter::FilterFn>::filter args=self,predicate under=all calls=take ptype=I32 loops=0 voc=resolved_indices,value,count_set_bits,boolean_buffer n=1
take(values(self), PrimitiveArray.from_vec(each(pos(child(self, 0, Primitive(U64, NonNullable), indices_len(self)))), NonNullable))
@ <vortex::array::sparse::SparseArray as vortex::compute::filter::FilterFn>::filter args=self,predicate ptype=I32 loops=0 voc=resolved_indices,value,count_set_bits,boolean_buffer
SparseArray.try_new(PrimitiveArray.from_vec(each([count_set_bits(slice(boolean_buffer(predicate), L, [-L + elem(maybe_null_slice(child(self, 0, Primitive(U64, NonNullable), indices_len(self)))) - indices_offset(self)])) + or(last(loop), 0)]), NonNullable), take(values(self), PrimitiveArray.from_vec(each(pos(child(self, 0, Primitive(U64, NonNullable), indices_len(self)))), NonNullable)), count_set_bits(boolean_buffer(predicate)), fill_value(self))
'''
CHUNK = r'''
@ <vortex::array::chunked::ChunkedArray as vortex::compute::filter::FilterFn>::filter args=self,predicate voc=filter_slices,filter_indices,as_bool_array_unchecked,true_count,maybe_null_slices_iter,maybe_null_indices_iter
ChunkedArray.try_new(Vec.new(), dtype(self)) <- !Eq(len(self), true_count(as_bool_array_unchecked(predicate))) & Eq(0, true_count(as_bool_array_unchecked(predicate)))
ChunkedArray.try_new({filter_indices(self, maybe_null_indices_iter(as_bool_array_unchecked(predicate))) <- !Lt(('#', ('fbits', '3fe999999999999a')), div(true_count(as_bool_array_unchecked(predicate)), len(self))) | filter_slices(self, maybe_null_slices_iter(as_bool_array_unchecked(predicate))) <- Lt(('#', ('fbits', '3fe999999999999a')), div(true_count(as_bool_array_unchecked(predicate)), len(self)))}, dtype(self)) <- !Eq(0, true_count(as_bool_array_unchecked(predicate))) & !Eq(len(self), true_count(as_bool_array_unchecked(predicate)))
self <- Eq(len(self), true_count(as_bool_array_unchecked(predicate)))
@ vortex::array::chunked::compute::filter::filter_slices args=array,set_slices loops=0 calls=push#1 voc=chunks,chunk,chunk_offsets,find_chunk_idx,slices_to_predicate n=5
push((0, [find_chunk_idx([elem(set_slices).1 - 1], maybe_null_slice(chunk_offsets(array))).1 + 1]))
push((find_chunk_idx(elem(set_slices).0, maybe_null_slice(chunk_offsets(array))).1, [find_chunk_idx([elem(set_slices).1 - 1], maybe_null_slice(chunk_offsets(array))).1 + 1]))
push((find_chunk_idx(elem(set_slices).0, maybe_null_slice(chunk_offsets(array))).1, [index(maybe_null_slice(chunk_offsets(array)), [find_chunk_idx(elem(set_slices).0, maybe_null_slice(chunk_offsets(array))).0 + 1]) - index(maybe_null_slice(chunk_offsets(array)), find_chunk_idx(elem(set_slices).0, maybe_null_slice(chunk_offsets(array))).0)]))
push(elem(chunks(array)))
push(filter(elem(chunks(array)), slices_to_predicate(elem(L)@Slices.0, len(elem(chunks(array))))))
@ vortex::array::chunked::compute::filter::filter_slices args=array,set_slices loops=0 calls=index_mut#1 voc=chunks,chunk,chunk_offsets,find_chunk_idx,slices_to_predicate n=4
index_mut([find_chunk_idx(elem(set_slices).0, maybe_null_slice(chunk_offsets(array))).0 + 1]..find_chunk_idx([elem(set_slices).1 - 1], maybe_null_slice(chunk_offsets(array))).0)
index_mut(find_chunk_idx([elem(set_slices).1 - 1], maybe_null_slice(chunk_offsets(array))).0)
index_mut(find_chunk_idx(elem(set_slices).0, maybe_null_slice(chunk_offsets(array))).0)
@ vortex::array::chunked::compute::filter::filter_slices args=array,set_slices loops=0 voc=chunks,chunk,chunk_offsets,find_chunk_idx,slices_to_predicate
L
@ vortex::array::chunked::compute::filter::filter_slices args=array,set_slices loops=0 under=all calls=filter voc=chunks,chunk,chunk_offsets,find_chunk_idx,slices_to_predicate n=1
filter(elem(chunks(array)), slices_to_predicate(elem(L)@Slices.0, len(elem(chunks(array))))) <- elem(L) is Slices
@ vortex::array::chunked::compute::filter::filter_indices args=array,set_indices loops=0 under=all calls=push#1 voc=chunks,chunk,chunk_offsets,find_chunk_idx n=3
push(find_chunk_idx(elem(set_indices), maybe_null_slice(chunk_offsets(array))).1)
push(take(chunk(array, L), PrimitiveArray.from_vec(each(find_chunk_idx(elem(set_indices), maybe_null_slice(chunk_offsets(array))).1), NonNullable))) <- !Eq(0, len(each(find_chunk_idx(elem(set_indices), maybe_null_slice(chunk_offsets(array))).1)))
@ vortex::array::chunked::compute::filter::filter_indices args=array,set_indices under=all calls=take#0 voc=chunks,chunk,chunk_offsets,find_chunk_idx n=2
take(chunk(array, loop{0 | find_chunk_idx(elem(set_indices), maybe_null_slice(chunk_offsets(array))).0 <- !Eq(find_chunk_idx(elem(set_indices), maybe_null_slice(chunk_offsets(array))).0, loop)})) <- !Eq(0, len(each(find_chunk_idx(elem(set_indices), maybe_null_slice(chunk_offsets(array))).1)))
@ vortex::array::chunked::compute::filter::find_chunk_idx args=idx,chunk_ends voc=to_ends_index
(saturating_sub(to_ends_index(search_sorted(chunk_ends, idx, Right), len(chunk_ends)), 1), [idx - index(chunk_ends, saturating_sub(to_ends_index(search_sorted(chunk_ends, idx, Right), len(chunk_ends)), 1))])
@ vortex::array::chunked::compute::filter::slices_to_predicate args=slices,len under=all calls=append_n#1,2 n=3
append_n([-elem(slices).0 + elem(slices).1], True)
append_n([elem(slices).0 - loop{0 | elem(slices).1}], False)
append_n([len - loop{0 | elem(slices).1}], False)
@ vortex::compute::filter::filter args=array,predicate show=is_encoding voc=is_encoding calls=filter under=all
filter(array) <- is_encoding(predicate, EncodingId('vortex.bool', 2))
filter(array) <- is_encoding(predicate, EncodingId('vortex.constant', 9))
filter(array, predicate) <- !is_encoding(predicate, EncodingId('vortex.bool', 2)) & !is_encoding(predicate, EncodingId('vortex.constant', 9))
filter(filter(array), predicate) <- filter(array) is Some & is_encoding(predicate, EncodingId('vortex.bool', 2))
filter(filter(array), predicate) <- filter(array) is Some & is_encoding(predicate, EncodingId('vortex.constant', 9))
filter(into_arrow(array), as_boolean(into_arrow(predicate))) <- filter(array) is None & is_encoding(predicate, EncodingId('vortex.bool', 2))
filter(into_arrow(array), as_boolean(into_arrow(predicate))) <- filter(array) is None & is_encoding(predicate, EncodingId('vortex.constant', 9))
@ vortex::array::chunked::compute::filter::filter_indices args=array,set_indices calls=take#1 voc=chunks,chunk,chunk_offsets,find_chunk_idx
take(PrimitiveArray.from_vec(loop{afresh | each(find_chunk_idx(elem(set_indices), maybe_null_slice(chunk_offsets(array))).1)}, NonNullable))
'''
ITER = r'''
@ <vortex::array::constant::ConstantArray as vortex::variants::BoolArrayTrait>::maybe_null_indices_iter args=self voc=as_bool,scalar_value
0..len(self) <- Eq(True, as_bool(scalar_value(self)))
empty() <- !Eq(True, as_bool(scalar_value(self)))
@ <vortex::array::constant::ConstantArray as vortex::variants::BoolArrayTrait>::maybe_null_slices_iter args=self voc=as_bool,scalar_value
empty() <- !Eq(True, as_bool(scalar_value(self)))
once((0, len(self))) <- Eq(True, as_bool(scalar_value(self)))
@ <vortex::array::sparse::SparseArray as vortex::variants::BoolArrayTrait>::maybe_null_indices_iter args=self voc=boolean_buffer
set_indices(boolean_buffer(self))
@ <vortex::array::sparse::SparseArray as vortex::variants::BoolArrayTrait>::maybe_null_slices_iter args=self voc=boolean_buffer
set_slices(boolean_buffer(self))
@ <vortex::array::bool::BoolArray as vortex::variants::BoolArrayTrait>::maybe_null_indices_iter args=self
BitIndexIterator.new(buffer(self)@*, first_byte_bit_offset(self), len(self))
@ <vortex::array::bool::BoolArray as vortex::variants::BoolArrayTrait>::maybe_null_slices_iter args=self
BitSliceIterator.new(buffer(self)@*, first_byte_bit_offset(self), len(self))
'''
def run(c):
    spec.run_tables(c, (('filter', COMPONENT), ('filter: gather', GATHER), ('filter: varbin', VARBIN), ('filter: sparse', SPARSE), ('filter: chunked', CHUNK), ('filter: iterators', ITER)),
                    'must keep exactly the selected rows', r'FilterFn>::filter$', ('filter', 9))
