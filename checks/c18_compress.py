from lib import *
import spec
ID = 'C18'
TITLE = 'Compressing keeps the values'
RULE = 'the normal form of every encoder (what it writes as codes, patches, ends and validity, and under which guard), of every EncodingCompressor (which child it compresses and what it rebuilds from them), and of the sampling compressor around them is compared with the form that denotes a lossless encoding'
COMP = r'''
@ <vortex_sampling_compressor::compressors::alp::ALPCompressor as vortex_sampling_compressor::compressors::EncodingCompressor>::compress args=self,array,like,ctx
CompressedArray.new(ALPArray.try_new(compress(excluding(named(ctx, 'packed'), self), alp_encode_components(as_primitive(array), None).1, child(like, 0)), alp_encode_components(as_primitive(array), None).0, compress(including(excluding(auxiliary(ctx, 'patches'), self), ALPRDCompressor), alp_encode_components(as_primitive(array), None).2, child(like, 1))), CompressionTree.new(self, [compress(excluding(named(ctx, 'packed'), self), alp_encode_components(as_primitive(array), None).1, child(like, 0)).path, compress(including(excluding(auxiliary(ctx, 'patches'), self), ALPRDCompressor), alp_encode_components(as_primitive(array), None).2, child(like, 1)).path]))
@ <vortex_sampling_compressor::compressors::alp_rd::ALPRDCompressor as vortex_sampling_compressor::compressors::EncodingCompressor>::compress args=self,array,like,ctx
CompressedArray.new(encode(downcast_ref(as_any(or(metadata(like), alp_rd_new_encoder(array)))), array), CompressionTree(self, Vec.new(), or(metadata(like), alp_rd_new_encoder(array))))
@ <vortex_sampling_compressor::compressors::bitpacked::BitPackedCompressor as vortex_sampling_compressor::compressors::EncodingCompressor>::compress args=self,array,like,ctx
CompressedArray.new(BitPackedArray.try_new(bitpack(as_primitive(array), find_bit_width(self, as_primitive(array))), ptype(as_primitive(array)), compress_validity(ctx, validity(as_primitive(array))), compress(including(excluding(auxiliary(ctx, 'patches'), BitPackedCompressor(True)), BitPackedCompressor(False)), gather_patches(as_primitive(array), find_bit_width(self, as_primitive(array)), count_exceptions(find_bit_width(self, as_primitive(array)), compute_bit_width_freq(as_primitive(array)@*))), child(like, 0)), find_bit_width(self, as_primitive(array)), len(as_primitive(array))), CompressionTree.new(self, [compress(including(excluding(auxiliary(ctx, 'patches'), BitPackedCompressor(True)), BitPackedCompressor(False)), gather_patches(as_primitive(array), find_bit_width(self, as_primitive(array)), count_exceptions(find_bit_width(self, as_primitive(array)), compute_bit_width_freq(as_primitive(array)@*))), child(like, 0)).path])) <- !Eq(as_u8([8*byte_width(ptype(as_primitive(array)))]), find_bit_width(self, as_primitive(array)))
CompressedArray.new(array, None) <- Eq(as_u8([8*byte_width(ptype(as_primitive(array)))]), find_bit_width(self, as_primitive(array)))
@ <vortex_sampling_compressor::compressors::chunked::ChunkedCompressor as vortex_sampling_compressor::compressors::EncodingCompressor>::compress args=self,array,like,ctx
compress_chunked(self, TryFrom.try_from(array), like_into_parts(like), ctx)
@ <vortex_sampling_compressor::compressors::constant::ConstantCompressor as vortex_sampling_compressor::compressors::EncodingCompressor>::compress args=self,array,like,ctx
CompressedArray.new(ConstantArray.new(scalar_at(array, 0), len(array)), CompressionTree.new(self, Vec.new()))
@ <vortex_sampling_compressor::compressors::date_time_parts::DateTimePartsCompressor as vortex_sampling_compressor::compressors::EncodingCompressor>::compress args=self,array,like,ctx
CompressedArray.new(DateTimePartsArray.try_new(dtype(array), compress(named(ctx, 'days'), split_temporal(TryFrom.try_from(array)).days, child(like, 0)), compress(named(ctx, 'seconds'), split_temporal(TryFrom.try_from(array)).seconds, child(like, 1)), compress(named(ctx, 'subsecond'), split_temporal(TryFrom.try_from(array)).subseconds, child(like, 2))), CompressionTree.new(self, [compress(named(ctx, 'days'), split_temporal(TryFrom.try_from(array)).days, child(like, 0)).path, compress(named(ctx, 'seconds'), split_temporal(TryFrom.try_from(array)).seconds, child(like, 1)).path, compress(named(ctx, 'subsecond'), split_temporal(TryFrom.try_from(array)).subseconds, child(like, 2)).path]))
@ <vortex_sampling_compressor::compressors::delta::DeltaCompressor as vortex_sampling_compressor::compressors::EncodingCompressor>::compress args=self,array,like,ctx voc=try_from_delta_compress_parts
CompressedArray.new(DeltaArray.try_from_delta_compress_parts(compress(named(ctx, 'bases'), delta_compress(TryFrom.try_from(array)).0, child(like, 0)), compress(named(ctx, 'deltas'), delta_compress(TryFrom.try_from(array)).1, child(like, 1)), compress_validity(ctx, validity(TryFrom.try_from(array)))), CompressionTree.new(self, [compress(named(ctx, 'bases'), delta_compress(TryFrom.try_from(array)).0, child(like, 0)).path, compress(named(ctx, 'deltas'), delta_compress(TryFrom.try_from(array)).1, child(like, 1)).path]))
@ <vortex_sampling_compressor::compressors::dict::DictCompressor as vortex_sampling_compressor::compressors::EncodingCompressor>::compress args=self,array,like,ctx
CompressedArray.new(DictArray.try_new(compress(excluding(auxiliary(ctx, 'codes'), self), {dict_encode_primitive(TryFrom.try_from(array)).0 <- Eq('vortex.primitive', id({array@Data.0.encoding <- array is Data | array@View.0.encoding <- array is View}).0) & Eq(3, id({array@Data.0.encoding <- array is Data | array@View.0.encoding <- array is View}).1) | dict_encode_varbin(TryFrom.try_from(array)).0 <- !Eq('vortex.primitive', id({array@Data.0.encoding <- array is Data | array@View.0.encoding <- array is View}).0) & Eq('vortex.varbin', id({array@Data.0.encoding <- array is Data | array@View.0.encoding <- array is View}).0) & Eq(5, id({array@Data.0.encoding <- array is Data | array@View.0.encoding <- array is View}).1) | dict_encode_varbinview(TryFrom.try_from(array)).0 <- !Eq('vortex.primitive', id({array@Data.0.encoding <- array is Data | array@View.0.encoding <- array is View}).0) & !Eq('vortex.varbin', id({array@Data.0.encoding <- array is Data | array@View.0.encoding <- array is View}).0) & Eq(6, id({array@Data.0.encoding <- array is Data | array@View.0.encoding <- array is View}).1)}, child(like, 0)), compress(excluding(named(ctx, 'values'), self), {dict_encode_primitive(TryFrom.try_from(array)).1 <- Eq('vortex.primitive', id({array@Data.0.encoding <- array is Data | array@View.0.encoding <- array is View}).0) & Eq(3, id({array@Data.0.encoding <- array is Data | array@View.0.encoding <- array is View}).1) | dict_encode_varbin(TryFrom.try_from(array)).1 <- !Eq('vortex.primitive', id({array@Data.0.encoding <- array is Data | array@View.0.encoding <- array is View}).0) & Eq('vortex.varbin', id({array@Data.0.encoding <- array is Data | array@View.0.encoding <- array is View}).0) & Eq(5, id({array@Data.0.encoding <- array is Data | array@View.0.encoding <- array is View}).1) | dict_encode_varbinview(TryFrom.try_from(array)).1 <- !Eq('vortex.primitive', id({array@Data.0.encoding <- array is Data | array@View.0.encoding <- array is View}).0) & !Eq('vortex.varbin', id({array@Data.0.encoding <- array is Data | array@View.0.encoding <- array is View}).0) & Eq(6, id({array@Data.0.encoding <- array is Data | array@View.0.encoding <- array is View}).1)}, child(like, 1))), CompressionTree.new(self, [compress(excluding(auxiliary(ctx, 'codes'), self), {dict_encode_primitive(TryFrom.try_from(array)).0 <- Eq('vortex.primitive', id({array@Data.0.encoding <- array is Data | array@View.0.encoding <- array is View}).0) & Eq(3, id({array@Data.0.encoding <- array is Data | array@View.0.encoding <- array is View}).1) | dict_encode_varbin(TryFrom.try_from(array)).0 <- !Eq('vortex.primitive', id({array@Data.0.encoding <- array is Data | array@View.0.encoding <- array is View}).0) & Eq('vortex.varbin', id({array@Data.0.encoding <- array is Data | array@View.0.encoding <- array is View}).0) & Eq(5, id({array@Data.0.encoding <- array is Data | array@View.0.encoding <- array is View}).1) | dict_encode_varbinview(TryFrom.try_from(array)).0 <- !Eq('vortex.primitive', id({array@Data.0.encoding <- array is Data | array@View.0.encoding <- array is View}).0) & !Eq('vortex.varbin', id({array@Data.0.encoding <- array is Data | array@View.0.encoding <- array is View}).0) & Eq(6, id({array@Data.0.encoding <- array is Data | array@View.0.encoding <- array is View}).1)}, child(like, 0)).path, compress(excluding(named(ctx, 'values'), self), {dict_encode_primitive(TryFrom.try_from(array)).1 <- Eq('vortex.primitive', id({array@Data.0.encoding <- array is Data | array@View.0.encoding <- array is View}).0) & Eq(3, id({array@Data.0.encoding <- array is Data | array@View.0.encoding <- array is View}).1) | dict_encode_varbin(TryFrom.try_from(array)).1 <- !Eq('vortex.primitive', id({array@Data.0.encoding <- array is Data | array@View.0.encoding <- array is View}).0) & Eq('vortex.varbin', id({array@Data.0.encoding <- array is Data | array@View.0.encoding <- array is View}).0) & Eq(5, id({array@Data.0.encoding <- array is Data | array@View.0.encoding <- array is View}).1) | dict_encode_varbinview(TryFrom.try_from(array)).1 <- !Eq('vortex.primitive', id({array@Data.0.encoding <- array is Data | array@View.0.encoding <- array is View}).0) & !Eq('vortex.varbin', id({array@Data.0.encoding <- array is Data | array@View.0.encoding <- array is View}).0) & Eq(6, id({array@Data.0.encoding <- array is Data | array@View.0.encoding <- array is View}).1)}, child(like, 1)).path]))
@ <vortex_sampling_compressor::compressors::for::FoRCompressor as vortex_sampling_compressor::compressors::EncodingCompressor>::compress args=self,array,like,ctx
or(CompressedArray.new(FoRArray.try_new(compress(excluding(named(ctx, 'for'), self), child(TryFrom.try_from(for_compress(array)), 0, {Primitive({U16 <- ptype(TryFrom.try_from(for_compress(array))) is I16 | U32 <- ptype(TryFrom.try_from(for_compress(array))) is I32 | U64 <- ptype(TryFrom.try_from(for_compress(array))) is I64 | U8 <- ptype(TryFrom.try_from(for_compress(array))) is I8}, nullability(dtype(TryFrom.try_from(for_compress(array))))) <- ptype(TryFrom.try_from(for_compress(array))) is I16|I32|I64|I8 | dtype(TryFrom.try_from(for_compress(array))) <- ptype(TryFrom.try_from(for_compress(array))) is F16|F32|F64|U16|U32|U64|U8}, len(TryFrom.try_from(for_compress(array)))), child(like, 0)), Scalar(dtype(TryFrom.try_from(for_compress(array))), reference(TryFrom.try_from(for_compress(array)))), shift(TryFrom.try_from(for_compress(array)))), CompressionTree.new(self, [compress(excluding(named(ctx, 'for'), self), child(TryFrom.try_from(for_compress(array)), 0, {Primitive({U16 <- ptype(TryFrom.try_from(for_compress(array))) is I16 | U32 <- ptype(TryFrom.try_from(for_compress(array))) is I32 | U64 <- ptype(TryFrom.try_from(for_compress(array))) is I64 | U8 <- ptype(TryFrom.try_from(for_compress(array))) is I8}, nullability(dtype(TryFrom.try_from(for_compress(array))))) <- ptype(TryFrom.try_from(for_compress(array))) is I16|I32|I64|I8 | dtype(TryFrom.try_from(for_compress(array))) <- ptype(TryFrom.try_from(for_compress(array))) is F16|F32|F64|U16|U32|U64|U8}, len(TryFrom.try_from(for_compress(array)))), child(like, 0)).path])), CompressedArray.new(compress(excluding(named(ctx, 'for'), self), for_compress(array), like), CompressionTree.new(self, [compress(excluding(named(ctx, 'for'), self), for_compress(array), like).path])))
@ <vortex_sampling_compressor::compressors::fsst::FSSTCompressor as vortex_sampling_compressor::compressors::EncodingCompressor>::compress args=self,array,like,ctx
CompressedArray.new(FSSTArray.try_new(dtype(fsst_compress(array, downcast_ref(as_any(or(metadata(like), fsst_train_compressor(array)))))), child(fsst_compress(array, downcast_ref(as_any(or(metadata(like), fsst_train_compressor(array))))), 0, ('#', ('static', 'vortex_fsst::array::SYMBOLS_DTYPE')), symbols_len(fsst_compress(array, downcast_ref(as_any(or(metadata(like), fsst_train_compressor(array))))))), child(fsst_compress(array, downcast_ref(as_any(or(metadata(like), fsst_train_compressor(array))))), 1, ('#', ('static', 'vortex_fsst::array::SYMBOL_LENS_DTYPE')), symbols_len(fsst_compress(array, downcast_ref(as_any(or(metadata(like), fsst_train_compressor(array))))))), VarBinArray.try_new(compress(including(excluding(named(ctx, 'fsst_codes_offsets'), self), DeltaCompressor), child(TryFrom.try_from(child(fsst_compress(array, downcast_ref(as_any(or(metadata(like), fsst_train_compressor(array))))), 2, Binary(codes_nullability(fsst_compress(array, downcast_ref(as_any(or(metadata(like), fsst_train_compressor(array))))))), len(fsst_compress(array, downcast_ref(as_any(or(metadata(like), fsst_train_compressor(array)))))))), 0, Primitive(offsets_ptype(TryFrom.try_from(child(fsst_compress(array, downcast_ref(as_any(or(metadata(like), fsst_train_compressor(array))))), 2, Binary(codes_nullability(fsst_compress(array, downcast_ref(as_any(or(metadata(like), fsst_train_compressor(array))))))), len(fsst_compress(array, downcast_ref(as_any(or(metadata(like), fsst_train_compressor(array))))))))), NonNullable), [len(TryFrom.try_from(child(fsst_compress(array, downcast_ref(as_any(or(metadata(like), fsst_train_compressor(array))))), 2, Binary(codes_nullability(fsst_compress(array, downcast_ref(as_any(or(metadata(like), fsst_train_compressor(array))))))), len(fsst_compress(array, downcast_ref(as_any(or(metadata(like), fsst_train_compressor(array))))))))) + 1]), child(like, 1)), child(TryFrom.try_from(child(fsst_compress(array, downcast_ref(as_any(or(metadata(like), fsst_train_compressor(array))))), 2, Binary(codes_nullability(fsst_compress(array, downcast_ref(as_any(or(metadata(like), fsst_train_compressor(array))))))), len(fsst_compress(array, downcast_ref(as_any(or(metadata(like), fsst_train_compressor(array)))))))), 1, Primitive(U8, NonNullable), bytes_len(TryFrom.try_from(child(fsst_compress(array, downcast_ref(as_any(or(metadata(like), fsst_train_compressor(array))))), 2, Binary(codes_nullability(fsst_compress(array, downcast_ref(as_any(or(metadata(like), fsst_train_compressor(array))))))), len(fsst_compress(array, downcast_ref(as_any(or(metadata(like), fsst_train_compressor(array)))))))))), dtype(TryFrom.try_from(child(fsst_compress(array, downcast_ref(as_any(or(metadata(like), fsst_train_compressor(array))))), 2, Binary(codes_nullability(fsst_compress(array, downcast_ref(as_any(or(metadata(like), fsst_train_compressor(array))))))), len(fsst_compress(array, downcast_ref(as_any(or(metadata(like), fsst_train_compressor(array))))))))), validity(TryFrom.try_from(child(fsst_compress(array, downcast_ref(as_any(or(metadata(like), fsst_train_compressor(array))))), 2, Binary(codes_nullability(fsst_compress(array, downcast_ref(as_any(or(metadata(like), fsst_train_compressor(array))))))), len(fsst_compress(array, downcast_ref(as_any(or(metadata(like), fsst_train_compressor(array)))))))))), compress(excluding(auxiliary(ctx, 'uncompressed_lengths'), self), child(fsst_compress(array, downcast_ref(as_any(or(metadata(like), fsst_train_compressor(array))))), 3, Primitive(uncompressed_lengths_ptype(fsst_compress(array, downcast_ref(as_any(or(metadata(like), fsst_train_compressor(array)))))), NonNullable), len(fsst_compress(array, downcast_ref(as_any(or(metadata(like), fsst_train_compressor(array))))))), child(like, 0))), CompressionTree(self, [compress(excluding(auxiliary(ctx, 'uncompressed_lengths'), self), child(fsst_compress(array, downcast_ref(as_any(or(metadata(like), fsst_train_compressor(array))))), 3, Primitive(uncompressed_lengths_ptype(fsst_compress(array, downcast_ref(as_any(or(metadata(like), fsst_train_compressor(array)))))), NonNullable), len(fsst_compress(array, downcast_ref(as_any(or(metadata(like), fsst_train_compressor(array))))))), child(like, 0)).path, compress(including(excluding(named(ctx, 'fsst_codes_offsets'), self), DeltaCompressor), child(TryFrom.try_from(child(fsst_compress(array, downcast_ref(as_any(or(metadata(like), fsst_train_compressor(array))))), 2, Binary(codes_nullability(fsst_compress(array, downcast_ref(as_any(or(metadata(like), fsst_train_compressor(array))))))), len(fsst_compress(array, downcast_ref(as_any(or(metadata(like), fsst_train_compressor(array)))))))), 0, Primitive(offsets_ptype(TryFrom.try_from(child(fsst_compress(array, downcast_ref(as_any(or(metadata(like), fsst_train_compressor(array))))), 2, Binary(codes_nullability(fsst_compress(array, downcast_ref(as_any(or(metadata(like), fsst_train_compressor(array))))))), len(fsst_compress(array, downcast_ref(as_any(or(metadata(like), fsst_train_compressor(array))))))))), NonNullable), [len(TryFrom.try_from(child(fsst_compress(array, downcast_ref(as_any(or(metadata(like), fsst_train_compressor(array))))), 2, Binary(codes_nullability(fsst_compress(array, downcast_ref(as_any(or(metadata(like), fsst_train_compressor(array))))))), len(fsst_compress(array, downcast_ref(as_any(or(metadata(like), fsst_train_compressor(array))))))))) + 1]), child(like, 1)).path], or(metadata(like), fsst_train_compressor(array)))) <- Lt(11474, nbytes(array))
CompressedArray.new(array, None) <- !Lt(11474, nbytes(array))
@ <vortex_sampling_compressor::compressors::roaring_bool::RoaringBoolCompressor as vortex_sampling_compressor::compressors::EncodingCompressor>::compress args=self,array,like,ctx
CompressedArray.new(roaring_bool_encode(array), CompressionTree.new(self, Vec.new()))
@ <vortex_sampling_compressor::compressors::roaring_int::RoaringIntCompressor as vortex_sampling_compressor::compressors::EncodingCompressor>::compress args=self,array,like,ctx
CompressedArray.new(roaring_int_encode(array), CompressionTree.new(self, Vec.new()))
@ <vortex_sampling_compressor::compressors::runend::RunEndCompressor as vortex_sampling_compressor::compressors::EncodingCompressor>::compress args=self,array,like,ctx
CompressedArray.new(RunEndArray.try_new(compress(auxiliary(ctx, 'ends'), runend_encode(as_primitive(array)).0, child(like, 0)), compress(excluding(named(ctx, 'values'), self), runend_encode(as_primitive(array)).1, child(like, 1)), compress_validity(ctx, validity(as_primitive(array)))), CompressionTree.new(self, [compress(auxiliary(ctx, 'ends'), runend_encode(as_primitive(array)).0, child(like, 0)).path, compress(excluding(named(ctx, 'values'), self), runend_encode(as_primitive(array)).1, child(like, 1)).path]))
@ <vortex_sampling_compressor::compressors::sparse::SparseCompressor as vortex_sampling_compressor::compressors::EncodingCompressor>::compress args=self,array,like,ctx
CompressedArray.new(SparseArray.try_new_with_offset(compress(auxiliary(ctx, 'indices'), child(TryFrom.try_from(array), 0, Primitive(U64, NonNullable), indices_len(TryFrom.try_from(array))), child(like, 0)), compress(named(ctx, 'values'), child(TryFrom.try_from(array), 1, dtype(TryFrom.try_from(array)), indices_len(TryFrom.try_from(array))), child(like, 1)), len(TryFrom.try_from(array)), indices_offset(TryFrom.try_from(array)), fill_value(TryFrom.try_from(array))), CompressionTree.new(self, [compress(auxiliary(ctx, 'indices'), child(TryFrom.try_from(array), 0, Primitive(U64, NonNullable), indices_len(TryFrom.try_from(array))), child(like, 0)).path, compress(named(ctx, 'values'), child(TryFrom.try_from(array), 1, dtype(TryFrom.try_from(array)), indices_len(TryFrom.try_from(array))), child(like, 1)).path]))
@ <vortex_sampling_compressor::compressors::struct_::StructCompressor as vortex_sampling_compressor::compressors::EncodingCompressor>::compress args=self,array,like,ctx
CompressedArray.new(StructArray.try_new(dtype(TryFrom.try_from(array))@Struct.0.names, process_results(each(compress(ctx, child(TryFrom.try_from(array), pos(dtype(TryFrom.try_from(array))@Struct.0.names), index(dtype(TryFrom.try_from(array))@Struct.0.dtypes, pos(dtype(TryFrom.try_from(array))@Struct.0.names)), len(TryFrom.try_from(array))), elem(or(like.children, from_elem(None, len(dtype(TryFrom.try_from(array))@Struct.0.names)))))), fn(unzip(each((elem($0), elem($0).path))))).0, len(TryFrom.try_from(array)), compress_validity(ctx, validity(TryFrom.try_from(array)))), CompressionTree.new(self, process_results(each(compress(ctx, child(TryFrom.try_from(array), pos(dtype(TryFrom.try_from(array))@Struct.0.names), index(dtype(TryFrom.try_from(array))@Struct.0.dtypes, pos(dtype(TryFrom.try_from(array))@Struct.0.names)), len(TryFrom.try_from(array))), elem(or(like.children, from_elem(None, len(dtype(TryFrom.try_from(array))@Struct.0.names)))))), fn(unzip(each((elem($0), elem($0).path))))).1))
@ <vortex_sampling_compressor::compressors::zigzag::ZigZagCompressor as vortex_sampling_compressor::compressors::EncodingCompressor>::compress args=self,array,like,ctx
CompressedArray.new(ZigZagArray.try_new(compress(ctx, child(zigzag_encode(TryFrom.try_from(array)), 0, Primitive({TryFrom.try_from(dtype(zigzag_encode(TryFrom.try_from(array)))) <- TryFrom.try_from(dtype(zigzag_encode(TryFrom.try_from(array)))) is F16|F32|F64|U16|U32|U64|U8 | U16 <- TryFrom.try_from(dtype(zigzag_encode(TryFrom.try_from(array)))) is I16 | U32 <- TryFrom.try_from(dtype(zigzag_encode(TryFrom.try_from(array)))) is I32 | U64 <- TryFrom.try_from(dtype(zigzag_encode(TryFrom.try_from(array)))) is I64 | U8 <- TryFrom.try_from(dtype(zigzag_encode(TryFrom.try_from(array)))) is I8}, nullability(dtype(zigzag_encode(TryFrom.try_from(array))))), len(zigzag_encode(TryFrom.try_from(array)))), child(like, 0))), CompressionTree.new(self, [compress(ctx, child(zigzag_encode(TryFrom.try_from(array)), 0, Primitive({TryFrom.try_from(dtype(zigzag_encode(TryFrom.try_from(array)))) <- TryFrom.try_from(dtype(zigzag_encode(TryFrom.try_from(array)))) is F16|F32|F64|U16|U32|U64|U8 | U16 <- TryFrom.try_from(dtype(zigzag_encode(TryFrom.try_from(array)))) is I16 | U32 <- TryFrom.try_from(dtype(zigzag_encode(TryFrom.try_from(array)))) is I32 | U64 <- TryFrom.try_from(dtype(zigzag_encode(TryFrom.try_from(array)))) is I64 | U8 <- TryFrom.try_from(dtype(zigzag_encode(TryFrom.try_from(array)))) is I8}, nullability(dtype(zigzag_encode(TryFrom.try_from(array))))), len(zigzag_encode(TryFrom.try_from(array)))), child(like, 0)).path]))
'''
CAN = r'''
@ <vortex_sampling_compressor::compressors::alp::ALPCompressor as vortex_sampling_compressor::compressors::EncodingCompressor>::can_compress args=self,array,like,ctx
None
self <- ptype(TryFrom.try_from(array)) is F32|F64
@ <vortex_sampling_compressor::compressors::alp_rd::ALPRDCompressor as vortex_sampling_compressor::compressors::EncodingCompressor>::can_compress args=self,array,like,ctx
None
self <- ptype(TryFrom.try_from(array)) is F32|F64
@ <vortex_sampling_compressor::compressors::chunked::ChunkedCompressor as vortex_sampling_compressor::compressors::EncodingCompressor>::can_compress args=self,array,like,ctx
None <- !Eq(EncodingId('vortex.chunked', 10), id({array@Data.0.encoding <- array is Data | array@View.0.encoding <- array is View}))
self <- Eq(EncodingId('vortex.chunked', 10), id({array@Data.0.encoding <- array is Data | array@View.0.encoding <- array is View}))
@ <vortex_sampling_compressor::compressors::constant::ConstantCompressor as vortex_sampling_compressor::compressors::EncodingCompressor>::can_compress args=self,array,like,ctx
None <- !Eq(True, TryFrom.try_from(compute(array@*, IsConstant)))
None <- Eq(0, len(array))
self <- !Eq(0, len(array)) & Eq(True, TryFrom.try_from(compute(array@*, IsConstant)))
@ <vortex_sampling_compressor::compressors::date_time_parts::DateTimePartsCompressor as vortex_sampling_compressor::compressors::EncodingCompressor>::can_compress args=self,array,like,ctx
None <- TryFrom.try_from(array) is Err
None <- TryFrom.try_from(array).temporal_metadata is Date|Time
self <- TryFrom.try_from(array) is Ok & TryFrom.try_from(array).temporal_metadata is Timestamp
@ <vortex_sampling_compressor::compressors::delta::DeltaCompressor as vortex_sampling_compressor::compressors::EncodingCompressor>::can_compress args=self,array,like,ctx
None
self <- ptype(TryFrom.try_from(array)) is U16|U32|U64|U8
@ <vortex_sampling_compressor::compressors::fsst::FSSTCompressor as vortex_sampling_compressor::compressors::EncodingCompressor>::can_compress args=self,array,like,ctx
None <- !Eq(EncodingId('vortex.varbin', 5), id({array@Data.0.encoding <- array is Data | array@View.0.encoding <- array is View})) & !Eq(EncodingId('vortex.varbinview', 6), id({array@Data.0.encoding <- array is Data | array@View.0.encoding <- array is View}))
None <- dtype(array) is Binary|Bool|Extension|List|Null|Primitive|Struct
self <- Eq(EncodingId('vortex.varbin', 5), id({array@Data.0.encoding <- array is Data | array@View.0.encoding <- array is View})) & dtype(array) is Utf8
self <- Eq(EncodingId('vortex.varbinview', 6), id({array@Data.0.encoding <- array is Data | array@View.0.encoding <- array is View})) & dtype(array) is Utf8
@ <vortex_sampling_compressor::compressors::roaring_bool::RoaringBoolCompressor as vortex_sampling_compressor::compressors::EncodingCompressor>::can_compress args=self,array,like,ctx
None <- !Eq(Bool(NonNullable), dtype(array))
None <- !Eq(EncodingId('vortex.bool', 2), id({array@Data.0.encoding <- array is Data | array@View.0.encoding <- array is View}))
None <- Lt(4294967295, len(array))
self <- !Lt(4294967295, len(array)) & Eq(Bool(NonNullable), dtype(array)) & Eq(EncodingId('vortex.bool', 2), id({array@Data.0.encoding <- array is Data | array@View.0.encoding <- array is View}))
@ <vortex_sampling_compressor::compressors::roaring_int::RoaringIntCompressor as vortex_sampling_compressor::compressors::EncodingCompressor>::can_compress args=self,array,like,ctx
None <- !Eq(True, TryFrom.try_from(compute(array@*, IsStrictSorted)))
None <- !Eq(True, TryFrom.try_from(dtype(array)) is U16|U32|U64|U8)
None <- Lt(4294967295, or(TryFrom.try_from(compute(array@*, Max)), 0))
None <- nullability(dtype(array)) is Nullable
self <- !Lt(4294967295, or(TryFrom.try_from(compute(array@*, Max)), 0)) & Eq(True, TryFrom.try_from(compute(array@*, IsStrictSorted))) & Eq(True, TryFrom.try_from(dtype(array)) is U16|U32|U64|U8) & nullability(dtype(array)) is NonNullable
@ <vortex_sampling_compressor::compressors::sparse::SparseCompressor as vortex_sampling_compressor::compressors::EncodingCompressor>::can_compress args=self,array,like,ctx
None <- !Eq(EncodingId('vortex.sparse', 8), id({array@Data.0.encoding <- array is Data | array@View.0.encoding <- array is View}))
self <- Eq(EncodingId('vortex.sparse', 8), id({array@Data.0.encoding <- array is Data | array@View.0.encoding <- array is View}))
@ <vortex_sampling_compressor::compressors::struct_::StructCompressor as vortex_sampling_compressor::compressors::EncodingCompressor>::can_compress args=self,array,like,ctx
self
@ <vortex_sampling_compressor::compressors::zigzag::ZigZagCompressor as vortex_sampling_compressor::compressors::EncodingCompressor>::can_compress args=self,array,like,ctx
None
optfilter(self, Lt(TryFrom.try_from(cast(compute(TryFrom.try_from(array)@*, Min), Primitive(I64, NonNullable))), 0)) <- ptype(TryFrom.try_from(array)) is I16|I32|I64|I8
'''
CTX = r'''
@ <vortex_sampling_compressor::SamplingCompressor>::compress_validity args=self,validity
Array(compress(self, validity@Array.0, None)) <- validity is Array
validity <- validity is AllInvalid|AllValid|NonNullable
@ <vortex_sampling_compressor::SamplingCompressor>::compress args=self,array,like
CompressedArray.new(array, None) <- Eq(0, len(array))
compress(like, array, self) <- !Eq(0, len(array)) & compress(like, array, self) is Some & like is Some
compress_array(self, array) <- !Eq(0, len(array)) & compress(like, array, self) is None
compress_array(self, array) <- !Eq(0, len(array)) & like is None
@ <vortex_sampling_compressor::SamplingCompressor>::compress_array args=self,array
CompressedArray.new(array, None) <- Eq(0, len(ipartition(filtered(filtered(self.compressors, !contains(self.disabled_compressors, elem(self.compressors))), isSome(can_compress(elem(self.compressors), array))), !Lt(self.options.max_cost, [cost(elem(self.compressors)) + self.depth])).0)) & can_compress(ChunkedCompressor(('#', ('fbits', '3f99999a'))), array) is None & can_compress(ConstantCompressor, array) is None & can_compress(StructCompressor, array) is None
CompressedArray.new(array, None) <- Eq(EncodingId('vortex.constant', 9), id({array@Data.0.encoding <- array is Data | array@View.0.encoding <- array is View}))
compress(can_compress(ChunkedCompressor(('#', ('fbits', '3f99999a'))), array), array, None, self) <- !Eq(EncodingId('vortex.constant', 9), id({array@Data.0.encoding <- array is Data | array@View.0.encoding <- array is View})) & can_compress(ChunkedCompressor(('#', ('fbits', '3f99999a'))), array) is Some
compress(can_compress(ConstantCompressor, array), array, None, self) <- !Eq(EncodingId('vortex.constant', 9), id({array@Data.0.encoding <- array is Data | array@View.0.encoding <- array is View})) & can_compress(ChunkedCompressor(('#', ('fbits', '3f99999a'))), array) is None & can_compress(ConstantCompressor, array) is Some & can_compress(StructCompressor, array) is None
compress(can_compress(StructCompressor, array), array, None, self) <- !Eq(EncodingId('vortex.constant', 9), id({array@Data.0.encoding <- array is Data | array@View.0.encoding <- array is View})) & can_compress(ChunkedCompressor(('#', ('fbits', '3f99999a'))), array) is None & can_compress(StructCompressor, array) is Some
find_best_compression({ipartition(filtered(filtered(self.compressors, !contains(self.disabled_compressors, elem(self.compressors))), isSome(can_compress(elem(self.compressors), array))), !Lt(self.options.max_cost, [cost(elem(self.compressors)) + self.depth])).0 <- !Lt(1, len(ipartition(filtered(filtered(self.compressors, !contains(self.disabled_compressors, elem(self.compressors))), isSome(can_compress(elem(self.compressors), array))), !Lt(self.options.max_cost, [cost(elem(self.compressors)) + self.depth])).0)) | ipartition(filtered(filtered(self.compressors, !contains(self.disabled_compressors, elem(self.compressors))), isSome(can_compress(elem(self.compressors), array))), !Lt(self.options.max_cost, [cost(elem(self.compressors)) + self.depth])).0.retain(fn(!Eq(id($0), id({array@Data.0.encoding <- array is Data | array@View.0.encoding <- array is View}).0))) <- Lt(1, len(ipartition(filtered(filtered(self.compressors, !contains(self.disabled_compressors, elem(self.compressors))), isSome(can_compress(elem(self.compressors), array))), !Lt(self.options.max_cost, [cost(elem(self.compressors)) + self.depth])).0))}, array, self) <- !Eq(0, len(ipartition(filtered(filtered(self.compressors, !contains(self.disabled_compressors, elem(self.compressors))), isSome(can_compress(elem(self.compressors), array))), !Lt(self.options.max_cost, [cost(elem(self.compressors)) + self.depth])).0)) & !Eq(EncodingId('vortex.constant', 9), id({array@Data.0.encoding <- array is Data | array@View.0.encoding <- array is View})) & !Lt(self.options.sample_count*self.options.sample_size, len(array)) & can_compress(ChunkedCompressor(('#', ('fbits', '3f99999a'))), array) is None & can_compress(ConstantCompressor, array) is None & can_compress(StructCompressor, array) is None
or(compress_unchecked(into_path(find_best_compression({ipartition(filtered(filtered(self.compressors, !contains(self.disabled_compressors, elem(self.compressors))), isSome(can_compress(elem(self.compressors), array))), !Lt(self.options.max_cost, [cost(elem(self.compressors)) + self.depth])).0 <- !Lt(1, len(ipartition(filtered(filtered(self.compressors, !contains(self.disabled_compressors, elem(self.compressors))), isSome(can_compress(elem(self.compressors), array))), !Lt(self.options.max_cost, [cost(elem(self.compressors)) + self.depth])).0)) | ipartition(filtered(filtered(self.compressors, !contains(self.disabled_compressors, elem(self.compressors))), isSome(can_compress(elem(self.compressors), array))), !Lt(self.options.max_cost, [cost(elem(self.compressors)) + self.depth])).0.retain(fn(!Eq(id($0), id({array@Data.0.encoding <- array is Data | array@View.0.encoding <- array is View}).0))) <- Lt(1, len(ipartition(filtered(filtered(self.compressors, !contains(self.disabled_compressors, elem(self.compressors))), isSome(can_compress(elem(self.compressors), array))), !Lt(self.options.max_cost, [cost(elem(self.compressors)) + self.depth])).0))}, ChunkedArray.try_new(each(slice(array, elem(stratified_slices(len(array), self.options.sample_size, self.options.sample_count, seed_from_u64(self.options.rng_seed))).0, elem(stratified_slices(len(array), self.options.sample_size, self.options.sample_count, seed_from_u64(self.options.rng_seed))).1)), dtype(array))@*, self)), array, self), CompressedArray.new(array, None)) <- !Eq(0, len(ipartition(filtered(filtered(self.compressors, !contains(self.disabled_compressors, elem(self.compressors))), isSome(can_compress(elem(self.compressors), array))), !Lt(self.options.max_cost, [cost(elem(self.compressors)) + self.depth])).0)) & !Eq(EncodingId('vortex.constant', 9), id({array@Data.0.encoding <- array is Data | array@View.0.encoding <- array is View})) & Lt(self.options.sample_count*self.options.sample_size, len(array)) & can_compress(ChunkedCompressor(('#', ('fbits', '3f99999a'))), array) is None & can_compress(ConstantCompressor, array) is None & can_compress(StructCompressor, array) is None
@ <vortex_sampling_compressor::SamplingCompressor as vortex::compress::CompressionStrategy>::compress args=self,array
compress(self, array, None)
@ <vortex_sampling_compressor::compressors::bitpacked::BitPackedCompressor>::find_bit_width args=self,array
find_best_bit_width(array) <- self.allow_patches
find_min_patchless_bit_width(array) <- !self.allow_patches
@ <vortex_sampling_compressor::compressors::chunked::ChunkedCompressor>::compress_chunked args=self,array,previous,ctx calls=compress#1 loops=0 guards=0 voc=named,rechunk,chunks,chunk,compress,compress_array,into_parts,nbytes,relatively_good_ratio,unwrap_or,format,new_display n=1
compress(elem(chunks(rechunk(array, ctx.options.target_block_bytesize, ctx.options.target_block_size))))
@ <vortex_sampling_compressor::compressors::chunked::ChunkedCompressor>::compress_chunked args=self,array,previous,ctx calls=compress_array#1 loops=0 guards=0 voc=named,rechunk,chunks,chunk,compress,compress_array,into_parts,nbytes,relatively_good_ratio,unwrap_or,format,new_display n=1
compress_array(elem(chunks(rechunk(array, ctx.options.target_block_bytesize, ctx.options.target_block_size))))
@ <vortex_sampling_compressor::compressors::chunked::ChunkedCompressor>::compress_chunked args=self,array,previous,ctx calls=push#1 loops=0 guards=0 voc=named,rechunk,chunks,chunk,compress,compress_array,into_parts,nbytes,relatively_good_ratio,unwrap_or,format,new_display n=2
push(into_parts(compress(named(ctx, format(Arguments.new(('#', ('bytes', (6, 99, 104, 117, 110, 107, 45, 192, 0))), [new_display(pos(chunks(rechunk(array, ctx.options.target_block_bytesize, ctx.options.target_block_size))))]))), elem(chunks(rechunk(array, ctx.options.target_block_bytesize, ctx.options.target_block_size))), L.0)).0)
push(into_parts(compress_array(ctx, elem(chunks(rechunk(array, ctx.options.target_block_bytesize, ctx.options.target_block_size))))).0)
@ <vortex_sampling_compressor::compressors::chunked::ChunkedCompressor>::compress_chunked args=self,array,previous,ctx calls=try_new loops=0 guards=0 voc=named,rechunk,chunks,chunk,compress,compress_array,into_parts,nbytes,relatively_good_ratio,unwrap_or,format,new_display n=1
try_new(L, dtype(array))
'''
TREE = r'''
@ <vortex_sampling_compressor::compressors::CompressionTree as core::fmt::Debug>::fmt args=self,a,b,c
write_fmt(a, Arguments.new(('#', ('bytes', (192, 0))), [new_display(self)]))
@ <vortex_sampling_compressor::compressors::CompressionTree as core::fmt::Display>::fmt args=self,a,b,c
fmt(id(self.compressor), a)
@ <vortex_sampling_compressor::compressors::CompressionTree>::child args=self,a,b,c
index(self.children, a)
@ <vortex_sampling_compressor::compressors::CompressionTree>::compress args=self,a,b,c
compress(can_compress(self.compressor, a), a, self, with(b.depth=[b.depth + cost(can_compress(self.compressor, a))]))
@ <vortex_sampling_compressor::compressors::CompressionTree>::compress_unchecked args=self,a,b,c
compress(self.compressor, a, self, with(b.depth=[b.depth + cost(self.compressor)]))
@ <vortex_sampling_compressor::compressors::CompressionTree>::compressor args=self,a,b,c
self.compressor
@ <vortex_sampling_compressor::compressors::CompressionTree>::flat args=self,a,b,c
CompressionTree(self, Vec.new(), None)
@ <vortex_sampling_compressor::compressors::CompressionTree>::into_parts args=self,a,b,c
(self.compressor, self.children, self.metadata)
@ <vortex_sampling_compressor::compressors::CompressionTree>::metadata args=self,a,b,c
self.metadata
@ <vortex_sampling_compressor::compressors::CompressionTree>::new args=self,a,b,c
CompressionTree(self, a, None)
@ <vortex_sampling_compressor::compressors::CompressionTree>::new_with_metadata args=self,a,b,c
CompressionTree(self, a, b)
@ <vortex_sampling_compressor::compressors::CompressionTree>::num_descendants args=self,a,b,c
sum(fmap(self.children, [num_descendants(elem(self.children)) + 1]))
@ <vortex_sampling_compressor::compressors::CompressedArray as core::convert::AsRef<vortex::Array>>::as_ref args=self,a,b,c
self
@ <vortex_sampling_compressor::compressors::CompressedArray>::array args=self,a,b,c
self
@ <vortex_sampling_compressor::compressors::CompressedArray>::into_array args=self,a,b,c
self
@ <vortex_sampling_compressor::compressors::CompressedArray>::into_parts args=self,a,b,c
(self, self.path)
@ <vortex_sampling_compressor::compressors::CompressedArray>::new args=self,a,b,c
CompressedArray(self, a)
@ <vortex_sampling_compressor::compressors::CompressedArray>::uncompressed args=self,a,b,c
CompressedArray.new(self, None)
@ <vortex_sampling_compressor::SamplingCompressor as core::default::Default>::default args=self,array,like
SamplingCompressor(get(('#', ('static', '<vortex_sampling_compressor::DEFAULT_COMPRESSORS as core::ops::deref::Deref>::deref::__stability::LAZY')), fn:<DEFAULT_COMPRESSORS as Deref>::__static_ref_initialize), CompressConfig(64, 16, 0, 3, MinSize, 64, 16777216, 65536), Vec.new(), 0, HashSet.new())
@ <vortex_sampling_compressor::SamplingCompressor as core::fmt::Display>::fmt args=self,array,like
write_fmt(array, Arguments.new(('#', ('bytes', (1, 91, 192, 1, 124, 192, 1, 93, 0))), [new_display(self.depth), new_display(join(self.path, '.'))]))
@ <vortex_sampling_compressor::SamplingCompressor as vortex::compress::CompressionStrategy>::used_encodings args=self,array,like
flat(self.compressors, used_encodings(elem(self.compressors)))
@ <vortex_sampling_compressor::SamplingCompressor>::auxiliary args=self,array,like
with(with(self.path=self.path.push(array)).disabled_compressors=HashSet.new())
@ <vortex_sampling_compressor::SamplingCompressor>::excluding args=self,array,like
with(self.disabled_compressors=self.disabled_compressors.insert(array))
@ <vortex_sampling_compressor::SamplingCompressor>::for_compressor args=self,array,like
with(self.depth=[cost(array) + self.depth])
@ <vortex_sampling_compressor::SamplingCompressor>::including args=self,array,like
with(self.compressors=self.compressors.insert(array))
@ <vortex_sampling_compressor::SamplingCompressor>::named args=self,array,like
with(self.path=self.path.push(array))
@ <vortex_sampling_compressor::SamplingCompressor>::new args=self,array,like
SamplingCompressor(self, CompressConfig(64, 16, 0, 3, MinSize, 64, 16777216, 65536), Vec.new(), 0, HashSet.new())
@ <vortex_sampling_compressor::SamplingCompressor>::new_with_options args=self,array,like
SamplingCompressor(self, array, Vec.new(), 0, HashSet.new())
@ <vortex_sampling_compressor::SamplingCompressor>::options args=self,array,like
self.options
@ vortex_sampling_compressor::compressors::alp_rd::alp_rd_new_encoder args=a,b,c,d
RDEncoder(loop{ALPRDDictionary(loop{HashMap.with_capacity() | loop.insert(index(counts(each(as_u16(shr(to_bits(elem(maybe_null_slice(a))), as_u8([BITS - elem(1..[17])]))))).sort_by_key(fn(wrapping_neg($0.1))), sum(each(1))).0, sum(each(1)))}, as_u8({1 <- Eq(0, [len(loop{HashMap.with_capacity() | loop.insert(index(counts(each(as_u16(shr(to_bits(elem(maybe_null_slice(a))), as_u8([BITS - elem(1..[17])]))))).sort_by_key(fn(wrapping_neg($0.1))), sum(each(1))).0, sum(each(1)))}) - 1]) | wrapping_add(1, ilog2([len(loop{HashMap.with_capacity() | loop.insert(index(counts(each(as_u16(shr(to_bits(elem(maybe_null_slice(a))), as_u8([BITS - elem(1..[17])]))))).sort_by_key(fn(wrapping_neg($0.1))), sum(each(1))).0, sum(each(1)))}) - 1])) <- !Eq(0, [len(loop{HashMap.with_capacity() | loop.insert(index(counts(each(as_u16(shr(to_bits(elem(maybe_null_slice(a))), as_u8([BITS - elem(1..[17])]))))).sort_by_key(fn(wrapping_neg($0.1))), sum(each(1))).0, sum(each(1)))}) - 1])}), as_u8([BITS - elem(1..[17])])) <- Lt([as_u8([BITS - elem(1..[17])]) + as_u8({1 <- Eq(0, [len(loop{HashMap.with_capacity() | loop.insert(index(counts(each(as_u16(shr(to_bits(elem(maybe_null_slice(a))), as_u8([BITS - elem(1..[17])]))))).sort_by_key(fn(wrapping_neg($0.1))), sum(each(1))).0, sum(each(1)))}) - 1]) | wrapping_add(1, ilog2([len(loop{HashMap.with_capacity() | loop.insert(index(counts(each(as_u16(shr(to_bits(elem(maybe_null_slice(a))), as_u8([BITS - elem(1..[17])]))))).sort_by_key(fn(wrapping_neg($0.1))), sum(each(1))).0, sum(each(1)))}) - 1])) <- !Eq(0, [len(loop{HashMap.with_capacity() | loop.insert(index(counts(each(as_u16(shr(to_bits(elem(maybe_null_slice(a))), as_u8([BITS - elem(1..[17])]))))).sort_by_key(fn(wrapping_neg($0.1))), sum(each(1))).0, sum(each(1)))}) - 1])}) + div([32*sum(each(nth(elem(counts(each(as_u16(shr(to_bits(elem(maybe_null_slice(a))), as_u8([BITS - elem(1..[17])]))))).sort_by_key(fn(wrapping_neg($0.1)))), sum(each(1))).1))], len(a))], loop{('#', ('fbits', '7fefffffffffffff')) | [as_u8([BITS - elem(1..[17])]) + as_u8({1 <- Eq(0, [len(loop{HashMap.with_capacity() | loop.insert(index(counts(each(as_u16(shr(to_bits(elem(maybe_null_slice(a))), as_u8([BITS - elem(1..[17])]))))).sort_by_key(fn(wrapping_neg($0.1))), sum(each(1))).0, sum(each(1)))}) - 1]) | wrapping_add(1, ilog2([len(loop{HashMap.with_capacity() | loop.insert(index(counts(each(as_u16(shr(to_bits(elem(maybe_null_slice(a))), as_u8([BITS - elem(1..[17])]))))).sort_by_key(fn(wrapping_neg($0.1))), sum(each(1))).0, sum(each(1)))}) - 1])) <- !Eq(0, [len(loop{HashMap.with_capacity() | loop.insert(index(counts(each(as_u16(shr(to_bits(elem(maybe_null_slice(a))), as_u8([BITS - elem(1..[17])]))))).sort_by_key(fn(wrapping_neg($0.1))), sum(each(1))).0, sum(each(1)))}) - 1])}) + div([32*sum(each(nth(elem(counts(each(as_u16(shr(to_bits(elem(maybe_null_slice(a))), as_u8([BITS - elem(1..[17])]))))).sort_by_key(fn(wrapping_neg($0.1)))), sum(each(1))).1))], len(a))] <- loop}) | default(vortex_alp::alp_rd::ALPRDDictionary)}.right_bit_width, loop{from_elem(0, len(loop{ALPRDDictionary(loop{HashMap.with_capacity() | loop.insert(index(counts(each(as_u16(shr(to_bits(elem(maybe_null_slice(a))), as_u8([BITS - elem(1..[17])]))))).sort_by_key(fn(wrapping_neg($0.1))), sum(each(1))).0, sum(each(1)))}, as_u8({1 <- Eq(0, [len(loop{HashMap.with_capacity() | loop.insert(index(counts(each(as_u16(shr(to_bits(elem(maybe_null_slice(a))), as_u8([BITS - elem(1..[17])]))))).sort_by_key(fn(wrapping_neg($0.1))), sum(each(1))).0, sum(each(1)))}) - 1]) | wrapping_add(1, ilog2([len(loop{HashMap.with_capacity() | loop.insert(index(counts(each(as_u16(shr(to_bits(elem(maybe_null_slice(a))), as_u8([BITS - elem(1..[17])]))))).sort_by_key(fn(wrapping_neg($0.1))), sum(each(1))).0, sum(each(1)))}) - 1])) <- !Eq(0, [len(loop{HashMap.with_capacity() | loop.insert(index(counts(each(as_u16(shr(to_bits(elem(maybe_null_slice(a))), as_u8([BITS - elem(1..[17])]))))).sort_by_key(fn(wrapping_neg($0.1))), sum(each(1))).0, sum(each(1)))}) - 1])}), as_u8([BITS - elem(1..[17])])) <- Lt([as_u8([BITS - elem(1..[17])]) + as_u8({1 <- Eq(0, [len(loop{HashMap.with_capacity() | loop.insert(index(counts(each(as_u16(shr(to_bits(elem(maybe_null_slice(a))), as_u8([BITS - elem(1..[17])]))))).sort_by_key(fn(wrapping_neg($0.1))), sum(each(1))).0, sum(each(1)))}) - 1]) | wrapping_add(1, ilog2([len(loop{HashMap.with_capacity() | loop.insert(index(counts(each(as_u16(shr(to_bits(elem(maybe_null_slice(a))), as_u8([BITS - elem(1..[17])]))))).sort_by_key(fn(wrapping_neg($0.1))), sum(each(1))).0, sum(each(1)))}) - 1])) <- !Eq(0, [len(loop{HashMap.with_capacity() | loop.insert(index(counts(each(as_u16(shr(to_bits(elem(maybe_null_slice(a))), as_u8([BITS - elem(1..[17])]))))).sort_by_key(fn(wrapping_neg($0.1))), sum(each(1))).0, sum(each(1)))}) - 1])}) + div([32*sum(each(nth(elem(counts(each(as_u16(shr(to_bits(elem(maybe_null_slice(a))), as_u8([BITS - elem(1..[17])]))))).sort_by_key(fn(wrapping_neg($0.1)))), sum(each(1))).1))], len(a))], loop{('#', ('fbits', '7fefffffffffffff')) | [as_u8([BITS - elem(1..[17])]) + as_u8({1 <- Eq(0, [len(loop{HashMap.with_capacity() | loop.insert(index(counts(each(as_u16(shr(to_bits(elem(maybe_null_slice(a))), as_u8([BITS - elem(1..[17])]))))).sort_by_key(fn(wrapping_neg($0.1))), sum(each(1))).0, sum(each(1)))}) - 1]) | wrapping_add(1, ilog2([len(loop{HashMap.with_capacity() | loop.insert(index(counts(each(as_u16(shr(to_bits(elem(maybe_null_slice(a))), as_u8([BITS - elem(1..[17])]))))).sort_by_key(fn(wrapping_neg($0.1))), sum(each(1))).0, sum(each(1)))}) - 1])) <- !Eq(0, [len(loop{HashMap.with_capacity() | loop.insert(index(counts(each(as_u16(shr(to_bits(elem(maybe_null_slice(a))), as_u8([BITS - elem(1..[17])]))))).sort_by_key(fn(wrapping_neg($0.1))), sum(each(1))).0, sum(each(1)))}) - 1])}) + div([32*sum(each(nth(elem(counts(each(as_u16(shr(to_bits(elem(maybe_null_slice(a))), as_u8([BITS - elem(1..[17])]))))).sort_by_key(fn(wrapping_neg($0.1)))), sum(each(1))).1))], len(a))] <- loop}) | default(vortex_alp::alp_rd::ALPRDDictionary)}.dictionary)) | seti(loop, elem(loop{ALPRDDictionary(loop{HashMap.with_capacity() | loop.insert(index(counts(each(as_u16(shr(to_bits(elem(maybe_null_slice(a))), as_u8([BITS - elem(1..[17])]))))).sort_by_key(fn(wrapping_neg($0.1))), sum(each(1))).0, sum(each(1)))}, as_u8({1 <- Eq(0, [len(loop{HashMap.with_capacity() | loop.insert(index(counts(each(as_u16(shr(to_bits(elem(maybe_null_slice(a))), as_u8([BITS - elem(1..[17])]))))).sort_by_key(fn(wrapping_neg($0.1))), sum(each(1))).0, sum(each(1)))}) - 1]) | wrapping_add(1, ilog2([len(loop{HashMap.with_capacity() | loop.insert(index(counts(each(as_u16(shr(to_bits(elem(maybe_null_slice(a))), as_u8([BITS - elem(1..[17])]))))).sort_by_key(fn(wrapping_neg($0.1))), sum(each(1))).0, sum(each(1)))}) - 1])) <- !Eq(0, [len(loop{HashMap.with_capacity() | loop.insert(index(counts(each(as_u16(shr(to_bits(elem(maybe_null_slice(a))), as_u8([BITS - elem(1..[17])]))))).sort_by_key(fn(wrapping_neg($0.1))), sum(each(1))).0, sum(each(1)))}) - 1])}), as_u8([BITS - elem(1..[17])])) <- Lt([as_u8([BITS - elem(1..[17])]) + as_u8({1 <- Eq(0, [len(loop{HashMap.with_capacity() | loop.insert(index(counts(each(as_u16(shr(to_bits(elem(maybe_null_slice(a))), as_u8([BITS - elem(1..[17])]))))).sort_by_key(fn(wrapping_neg($0.1))), sum(each(1))).0, sum(each(1)))}) - 1]) | wrapping_add(1, ilog2([len(loop{HashMap.with_capacity() | loop.insert(index(counts(each(as_u16(shr(to_bits(elem(maybe_null_slice(a))), as_u8([BITS - elem(1..[17])]))))).sort_by_key(fn(wrapping_neg($0.1))), sum(each(1))).0, sum(each(1)))}) - 1])) <- !Eq(0, [len(loop{HashMap.with_capacity() | loop.insert(index(counts(each(as_u16(shr(to_bits(elem(maybe_null_slice(a))), as_u8([BITS - elem(1..[17])]))))).sort_by_key(fn(wrapping_neg($0.1))), sum(each(1))).0, sum(each(1)))}) - 1])}) + div([32*sum(each(nth(elem(counts(each(as_u16(shr(to_bits(elem(maybe_null_slice(a))), as_u8([BITS - elem(1..[17])]))))).sort_by_key(fn(wrapping_neg($0.1)))), sum(each(1))).1))], len(a))], loop{('#', ('fbits', '7fefffffffffffff')) | [as_u8([BITS - elem(1..[17])]) + as_u8({1 <- Eq(0, [len(loop{HashMap.with_capacity() | loop.insert(index(counts(each(as_u16(shr(to_bits(elem(maybe_null_slice(a))), as_u8([BITS - elem(1..[17])]))))).sort_by_key(fn(wrapping_neg($0.1))), sum(each(1))).0, sum(each(1)))}) - 1]) | wrapping_add(1, ilog2([len(loop{HashMap.with_capacity() | loop.insert(index(counts(each(as_u16(shr(to_bits(elem(maybe_null_slice(a))), as_u8([BITS - elem(1..[17])]))))).sort_by_key(fn(wrapping_neg($0.1))), sum(each(1))).0, sum(each(1)))}) - 1])) <- !Eq(0, [len(loop{HashMap.with_capacity() | loop.insert(index(counts(each(as_u16(shr(to_bits(elem(maybe_null_slice(a))), as_u8([BITS - elem(1..[17])]))))).sort_by_key(fn(wrapping_neg($0.1))), sum(each(1))).0, sum(each(1)))}) - 1])}) + div([32*sum(each(nth(elem(counts(each(as_u16(shr(to_bits(elem(maybe_null_slice(a))), as_u8([BITS - elem(1..[17])]))))).sort_by_key(fn(wrapping_neg($0.1)))), sum(each(1))).1))], len(a))] <- loop}) | default(vortex_alp::alp_rd::ALPRDDictionary)}.dictionary).1, elem(loop{ALPRDDictionary(loop{HashMap.with_capacity() | loop.insert(index(counts(each(as_u16(shr(to_bits(elem(maybe_null_slice(a))), as_u8([BITS - elem(1..[17])]))))).sort_by_key(fn(wrapping_neg($0.1))), sum(each(1))).0, sum(each(1)))}, as_u8({1 <- Eq(0, [len(loop{HashMap.with_capacity() | loop.insert(index(counts(each(as_u16(shr(to_bits(elem(maybe_null_slice(a))), as_u8([BITS - elem(1..[17])]))))).sort_by_key(fn(wrapping_neg($0.1))), sum(each(1))).0, sum(each(1)))}) - 1]) | wrapping_add(1, ilog2([len(loop{HashMap.with_capacity() | loop.insert(index(counts(each(as_u16(shr(to_bits(elem(maybe_null_slice(a))), as_u8([BITS - elem(1..[17])]))))).sort_by_key(fn(wrapping_neg($0.1))), sum(each(1))).0, sum(each(1)))}) - 1])) <- !Eq(0, [len(loop{HashMap.with_capacity() | loop.insert(index(counts(each(as_u16(shr(to_bits(elem(maybe_null_slice(a))), as_u8([BITS - elem(1..[17])]))))).sort_by_key(fn(wrapping_neg($0.1))), sum(each(1))).0, sum(each(1)))}) - 1])}), as_u8([BITS - elem(1..[17])])) <- Lt([as_u8([BITS - elem(1..[17])]) + as_u8({1 <- Eq(0, [len(loop{HashMap.with_capacity() | loop.insert(index(counts(each(as_u16(shr(to_bits(elem(maybe_null_slice(a))), as_u8([BITS - elem(1..[17])]))))).sort_by_key(fn(wrapping_neg($0.1))), sum(each(1))).0, sum(each(1)))}) - 1]) | wrapping_add(1, ilog2([len(loop{HashMap.with_capacity() | loop.insert(index(counts(each(as_u16(shr(to_bits(elem(maybe_null_slice(a))), as_u8([BITS - elem(1..[17])]))))).sort_by_key(fn(wrapping_neg($0.1))), sum(each(1))).0, sum(each(1)))}) - 1])) <- !Eq(0, [len(loop{HashMap.with_capacity() | loop.insert(index(counts(each(as_u16(shr(to_bits(elem(maybe_null_slice(a))), as_u8([BITS - elem(1..[17])]))))).sort_by_key(fn(wrapping_neg($0.1))), sum(each(1))).0, sum(each(1)))}) - 1])}) + div([32*sum(each(nth(elem(counts(each(as_u16(shr(to_bits(elem(maybe_null_slice(a))), as_u8([BITS - elem(1..[17])]))))).sort_by_key(fn(wrapping_neg($0.1)))), sum(each(1))).1))], len(a))], loop{('#', ('fbits', '7fefffffffffffff')) | [as_u8([BITS - elem(1..[17])]) + as_u8({1 <- Eq(0, [len(loop{HashMap.with_capacity() | loop.insert(index(counts(each(as_u16(shr(to_bits(elem(maybe_null_slice(a))), as_u8([BITS - elem(1..[17])]))))).sort_by_key(fn(wrapping_neg($0.1))), sum(each(1))).0, sum(each(1)))}) - 1]) | wrapping_add(1, ilog2([len(loop{HashMap.with_capacity() | loop.insert(index(counts(each(as_u16(shr(to_bits(elem(maybe_null_slice(a))), as_u8([BITS - elem(1..[17])]))))).sort_by_key(fn(wrapping_neg($0.1))), sum(each(1))).0, sum(each(1)))}) - 1])) <- !Eq(0, [len(loop{HashMap.with_capacity() | loop.insert(index(counts(each(as_u16(shr(to_bits(elem(maybe_null_slice(a))), as_u8([BITS - elem(1..[17])]))))).sort_by_key(fn(wrapping_neg($0.1))), sum(each(1))).0, sum(each(1)))}) - 1])}) + div([32*sum(each(nth(elem(counts(each(as_u16(shr(to_bits(elem(maybe_null_slice(a))), as_u8([BITS - elem(1..[17])]))))).sort_by_key(fn(wrapping_neg($0.1)))), sum(each(1))).1))], len(a))] <- loop}) | default(vortex_alp::alp_rd::ALPRDDictionary)}.dictionary).0)})
@ vortex_sampling_compressor::compressors::chunked::like_into_parts args=a,b,c,d
(remove(a.children, 0), downcast_ref(as_any(a.metadata)).0) <- a is Some & downcast_ref(as_any(a.metadata)).0 is Some & remove(a.children, 0) is Some
None <- a is None
None <- downcast_ref(as_any(a.metadata)).0 is None & remove(a.children, 0) is None
'''
ENC = r'''
@ vortex_alp::alp::compress::alp_encode args=array,exponents
ALPArray.try_new(alp_encode_components(array, None).1, alp_encode_components(array, None).0, alp_encode_components(array, None).2)
@ vortex_alp::alp::compress::alp_encode_components args=array,exponents voc=encode,alp_encode_components
(encode(maybe_null_slice(array), exponents).0, PrimitiveArray.from_vec(encode(maybe_null_slice(array), exponents).1, validity(array)), optfilter(SparseArray.try_new(PrimitiveArray.from_vec(encode(maybe_null_slice(array), exponents).2, NonNullable), PrimitiveArray.from_vec(encode(maybe_null_slice(array), exponents).3, AllValid), len(encode(maybe_null_slice(array), exponents).1), Null), !Eq(0, len(encode(maybe_null_slice(array), exponents).3))))
@ <vortex_alp::alp::array::ALPArray>::encode args=array
alp_encode(TryFrom.try_from(array))
@ vortex_alp::alp::ALPFloat::encode args=values,exponents voc=encode_chunk_unchecked
(or(exponents, find_best_exponents(values)), loop.encode_chunk_unchecked(elem(chunks(values, div(32768, size_of()))), or(exponents, find_best_exponents(values)), loop.encode_chunk_unchecked(elem(chunks(values, div(32768, size_of()))), or(exponents, find_best_exponents(values)), loop, loop.encode_chunk_unchecked(elem(chunks(values, div(32768, size_of()))), or(exponents, find_best_exponents(values)), loop, loop, loop{None | loop.encode_chunk_unchecked(elem(chunks(values, div(32768, size_of()))), or(exponents, find_best_exponents(values)), loop, loop, loop)}), loop{None | loop.encode_chunk_unchecked(elem(chunks(values, div(32768, size_of()))), or(exponents, find_best_exponents(values)), loop, loop, loop.encode_chunk_unchecked(elem(chunks(values, div(32768, size_of()))), or(exponents, find_best_exponents(values)), loop, loop, loop))}), loop.encode_chunk_unchecked(elem(chunks(values, div(32768, size_of()))), or(exponents, find_best_exponents(values)), loop, loop.encode_chunk_unchecked(elem(chunks(values, div(32768, size_of()))), or(exponents, find_best_exponents(values)), loop, loop, loop{None | loop.encode_chunk_unchecked(elem(chunks(values, div(32768, size_of()))), or(exponents, find_best_exponents(values)), loop, loop, loop)}), loop{None | loop.encode_chunk_unchecked(elem(chunks(values, div(32768, size_of()))), or(exponents, find_best_exponents(values)), loop, loop.encode_chunk_unchecked(elem(chunks(values, div(32768, size_of()))), or(exponents, find_best_exponents(values)), loop, loop, loop), loop)}), loop{None | loop.encode_chunk_unchecked(elem(chunks(values, div(32768, size_of()))), or(exponents, find_best_exponents(values)), loop, loop.encode_chunk_unchecked(elem(chunks(values, div(32768, size_of()))), or(exponents, find_best_exponents(values)), loop, loop.encode_chunk_unchecked(elem(chunks(values, div(32768, size_of()))), or(exponents, find_best_exponents(values)), loop, loop, loop), loop), loop.encode_chunk_unchecked(elem(chunks(values, div(32768, size_of()))), or(exponents, find_best_exponents(values)), loop, loop.encode_chunk_unchecked(elem(chunks(values, div(32768, size_of()))), or(exponents, find_best_exponents(values)), loop, loop, loop), loop))}), loop.encode_chunk_unchecked(elem(chunks(values, div(32768, size_of()))), or(exponents, find_best_exponents(values)), loop.encode_chunk_unchecked(elem(chunks(values, div(32768, size_of()))), or(exponents, find_best_exponents(values)), loop, loop.encode_chunk_unchecked(elem(chunks(values, div(32768, size_of()))), or(exponents, find_best_exponents(values)), loop, loop, loop{None | loop.encode_chunk_unchecked(elem(chunks(values, div(32768, size_of()))), or(exponents, find_best_exponents(values)), loop, loop, loop)}), loop{None | loop.encode_chunk_unchecked(elem(chunks(values, div(32768, size_of()))), or(exponents, find_best_exponents(values)), loop, loop, loop.encode_chunk_unchecked(elem(chunks(values, div(32768, size_of()))), or(exponents, find_best_exponents(values)), loop, loop, loop))}), loop.encode_chunk_unchecked(elem(chunks(values, div(32768, size_of()))), or(exponents, find_best_exponents(values)), loop.encode_chunk_unchecked(elem(chunks(values, div(32768, size_of()))), or(exponents, find_best_exponents(values)), loop, loop, loop{None | loop.encode_chunk_unchecked(elem(chunks(values, div(32768, size_of()))), or(exponents, find_best_exponents(values)), loop, loop, loop)}), loop, loop{None | loop.encode_chunk_unchecked(elem(chunks(values, div(32768, size_of()))), or(exponents, find_best_exponents(values)), loop.encode_chunk_unchecked(elem(chunks(values, div(32768, size_of()))), or(exponents, find_best_exponents(values)), loop, loop, loop), loop, loop)}), loop{None | loop.encode_chunk_unchecked(elem(chunks(values, div(32768, size_of()))), or(exponents, find_best_exponents(values)), loop.encode_chunk_unchecked(elem(chunks(values, div(32768, size_of()))), or(exponents, find_best_exponents(values)), loop, loop.encode_chunk_unchecked(elem(chunks(values, div(32768, size_of()))), or(exponents, find_best_exponents(values)), loop, loop, loop), loop), loop, loop.encode_chunk_unchecked(elem(chunks(values, div(32768, size_of()))), or(exponents, find_best_exponents(values)), loop.encode_chunk_unchecked(elem(chunks(values, div(32768, size_of()))), or(exponents, find_best_exponents(values)), loop, loop, loop), loop, loop))}), loop.encode_chunk_unchecked(elem(chunks(values, div(32768, size_of()))), or(exponents, find_best_exponents(values)), loop.encode_chunk_unchecked(elem(chunks(values, div(32768, size_of()))), or(exponents, find_best_exponents(values)), loop.encode_chunk_unchecked(elem(chunks(values, div(32768, size_of()))), or(exponents, find_best_exponents(values)), loop, loop, loop{None | loop.encode_chunk_unchecked(elem(chunks(values, div(32768, size_of()))), or(exponents, find_best_exponents(values)), loop, loop, loop)}), loop, loop{None | loop.encode_chunk_unchecked(elem(chunks(values, div(32768, size_of()))), or(exponents, find_best_exponents(values)), loop, loop.encode_chunk_unchecked(elem(chunks(values, div(32768, size_of()))), or(exponents, find_best_exponents(values)), loop, loop, loop), loop)}), loop.encode_chunk_unchecked(elem(chunks(values, div(32768, size_of()))), or(exponents, find_best_exponents(values)), loop.encode_chunk_unchecked(elem(chunks(values, div(32768, size_of()))), or(exponents, find_best_exponents(values)), loop, loop, loop{None | loop.encode_chunk_unchecked(elem(chunks(values, div(32768, size_of()))), or(exponents, find_best_exponents(values)), loop, loop, loop)}), loop, loop{None | loop.encode_chunk_unchecked(elem(chunks(values, div(32768, size_of()))), or(exponents, find_best_exponents(values)), loop.encode_chunk_unchecked(elem(chunks(values, div(32768, size_of()))), or(exponents, find_best_exponents(values)), loop, loop, loop), loop, loop)}), loop{None | loop.encode_chunk_unchecked(elem(chunks(values, div(32768, size_of()))), or(exponents, find_best_exponents(values)), loop.encode_chunk_unchecked(elem(chunks(values, div(32768, size_of()))), or(exponents, find_best_exponents(values)), loop.encode_chunk_unchecked(elem(chunks(values, div(32768, size_of()))), or(exponents, find_best_exponents(values)), loop, loop, loop), loop, loop), loop.encode_chunk_unchecked(elem(chunks(values, div(32768, size_of()))), or(exponents, find_best_exponents(values)), loop.encode_chunk_unchecked(elem(chunks(values, div(32768, size_of()))), or(exponents, find_best_exponents(values)), loop, loop, loop), loop, loop), loop)}))
@ vortex_alp::alp::ALPFloat::is_same args=values,exponents
and(Eq(exponents, values), Eq(is_sign_negative(exponents), is_sign_negative(values)))
@ vortex_alp::alp::ALPFloat::decode args=values,exponents
Vec.with_capacity()
each(decode_single(elem(values), exponents)).push(decode_single(elem(values), exponents))
@ vortex_alp::alp::ALPFloat::decode_single args=values,exponents
from_int(values)*index(F10, exponents.f)*index(IF10, exponents.e)
@ vortex_alp::alp::ALPFloat::encode_single_unchecked args=values,exponents
as_int(fast_round(index(F10, exponents.e)*index(IF10, exponents.f)*values))
@ vortex_alp::alp::ALPFloat::fast_round args=values,exponents
values
@ <f32 as vortex_alp::alp::ALPFloat>::F10 args=self
[('#', ('fbits', '3f800000')), ('#', ('fbits', '41200000')), ('#', ('fbits', '42c80000')), ('#', ('fbits', '447a0000')), ('#', ('fbits', '461c4000')), ('#', ('fbits', '47c35000')), ('#', ('fbits', '49742400')), ('#', ('fbits', '4b189680')), ('#', ('fbits', '4cbebc20')), ('#', ('fbits', '4e6e6b28')), ('#', ('fbits', '501502f9'))]
@ <f32 as vortex_alp::alp::ALPFloat>::FRACTIONAL_BITS args=self
23
@ <f32 as vortex_alp::alp::ALPFloat>::IF10 args=self
[('#', ('fbits', '3f800000')), ('#', ('fbits', '3dcccccd')), ('#', ('fbits', '3c23d70a')), ('#', ('fbits', '3a83126f')), ('#', ('fbits', '38d1b717')), ('#', ('fbits', '3727c5ac')), ('#', ('fbits', '358637bd')), ('#', ('fbits', '33d6bf95')), ('#', ('fbits', '322bcc77')), ('#', ('fbits', '3089705f')), ('#', ('fbits', '2edbe6ff'))]
@ <f32 as vortex_alp::alp::ALPFloat>::MAX_EXPONENT args=self
10
@ <f32 as vortex_alp::alp::ALPFloat>::as_int args=self
self
@ <f32 as vortex_alp::alp::ALPFloat>::from_int args=self
self
@ <f64 as vortex_alp::alp::ALPFloat>::F10 args=self
[('#', ('fbits', '3ff0000000000000')), ('#', ('fbits', '4024000000000000')), ('#', ('fbits', '4059000000000000')), ('#', ('fbits', '408f400000000000')), ('#', ('fbits', '40c3880000000000')), ('#', ('fbits', '40f86a0000000000')), ('#', ('fbits', '412e848000000000')), ('#', ('fbits', '416312d000000000')), ('#', ('fbits', '4197d78400000000')), ('#', ('fbits', '41cdcd6500000000')), ('#', ('fbits', '4202a05f20000000')), ('#', ('fbits', '42374876e8000000')), ('#', ('fbits', '426d1a94a2000000')), ('#', ('fbits', '42a2309ce5400000')), ('#', ('fbits', '42d6bcc41e900000')), ('#', ('fbits', '430c6bf526340000')), ('#', ('fbits', '4341c37937e08000')), ('#', ('fbits', '4376345785d8a000')), ('#', ('fbits', '43abc16d674ec800')), ('#', ('fbits', '43e158e460913d00')), ('#', ('fbits', '4415af1d78b58c40')), ('#', ('fbits', '444b1ae4d6e2ef50')), ('#', ('fbits', '4480f0cf064dd592')), ('#', ('fbits', '44b52d02c7e14af6'))]
@ <f64 as vortex_alp::alp::ALPFloat>::FRACTIONAL_BITS args=self
52
@ <f64 as vortex_alp::alp::ALPFloat>::IF10 args=self
[('#', ('fbits', '3ff0000000000000')), ('#', ('fbits', '3fb999999999999a')), ('#', ('fbits', '3f847ae147ae147b')), ('#', ('fbits', '3f50624dd2f1a9fc')), ('#', ('fbits', '3f1a36e2eb1c432d')), ('#', ('fbits', '3ee4f8b588e368f1')), ('#', ('fbits', '3eb0c6f7a0b5ed8d')), ('#', ('fbits', '3e7ad7f29abcaf48')), ('#', ('fbits', '3e45798ee2308c3a')), ('#', ('fbits', '3e112e0be826d695')), ('#', ('fbits', '3ddb7cdfd9d7bdbb')), ('#', ('fbits', '3da5fd7fe1796495')), ('#', ('fbits', '3d719799812dea11')), ('#', ('fbits', '3d3c25c268497682')), ('#', ('fbits', '3d06849b86a12b9b')), ('#', ('fbits', '3cd203af9ee75616')), ('#', ('fbits', '3c9cd2b297d889bc')), ('#', ('fbits', '3c670ef54646d497')), ('#', ('fbits', '3c32725dd1d243ac')), ('#', ('fbits', '3bfd83c94fb6d2ac')), ('#', ('fbits', '3bc79ca10c924223')), ('#', ('fbits', '3b92e3b40a0e9b4f')), ('#', ('fbits', '3b5e392010175ee6')), ('#', ('fbits', '3b282db34012b251'))]
@ <f64 as vortex_alp::alp::ALPFloat>::MAX_EXPONENT args=self
18
@ <f64 as vortex_alp::alp::ALPFloat>::as_int args=self
self
@ <f64 as vortex_alp::alp::ALPFloat>::from_int args=self
self
@ vortex_alp::alp::encode_chunk_unchecked args=chunk,exp,encoded,patch_idx,patch_values,fill out=3
.buf = {encoded.extend(each(encode_single_unchecked(elem(chunk), exp))) <- Eq(0, sum(each(!is_same(decode_single(encode_single_unchecked(elem(chunk), exp), exp), elem(chunk))))) & fill is None | encoded.extend(each(encode_single_unchecked(elem(chunk), exp))) <- fill is None & next(len(encoded)..len(encoded.extend(each(encode_single_unchecked(elem(chunk), exp))))) is None | loop{encoded.extend(each(encode_single_unchecked(elem(chunk), exp))) | seti(loop, elem(index({patch_idx <- Eq(0, sum(each(!is_same(decode_single(encode_single_unchecked(elem(chunk), exp), exp), elem(chunk))))) | patch_idx.reserve([sum(each(!is_same(decode_single(encode_single_unchecked(elem(chunk), exp), exp), elem(chunk)))) + 1]).spare_capacity_mut().set_len([len(patch_idx) + sum(each(!is_same(decode_single(encode_single_unchecked(elem(chunk), exp), exp), elem(chunk))))]) <- !Eq(0, sum(each(!is_same(decode_single(encode_single_unchecked(elem(chunk), exp), exp), elem(chunk)))))}, RangeFrom({0 <- fill is None | len(patch_idx) <- Eq(0, sum(each(!is_same(decode_single(encode_single_unchecked(elem(chunk), exp), exp), elem(chunk))))) & fill is Some | len(patch_idx) <- fill is Some & next(len(encoded)..len(encoded.extend(each(encode_single_unchecked(elem(chunk), exp))))) is None}))), {fill <- !Lt([len(encoded) + sum(each(!is_same(decode_single(encode_single_unchecked(elem(chunk), exp), exp), elem(chunk))))], len(encoded.extend(each(encode_single_unchecked(elem(chunk), exp))))) | fill <- fill is Some | fill <- next(len(encoded)..len(encoded.extend(each(encode_single_unchecked(elem(chunk), exp))))) is None | index(encoded.extend(each(encode_single_unchecked(elem(chunk), exp))), elem(len(encoded)..len(encoded.extend(each(encode_single_unchecked(elem(chunk), exp)))))) <- Eq(0, sum(each(!is_same(decode_single(encode_single_unchecked(elem(chunk), exp), exp), elem(chunk))))) & Lt([len(encoded) + sum(each(!is_same(decode_single(encode_single_unchecked(elem(chunk), exp), exp), elem(chunk))))], len(encoded.extend(each(encode_single_unchecked(elem(chunk), exp))))) & fill is None & next(len(encoded)..len(encoded.extend(each(encode_single_unchecked(elem(chunk), exp))))) is Some})} <- Eq(0, sum(each(!is_same(decode_single(encode_single_unchecked(elem(chunk), exp), exp), elem(chunk))))) | loop{encoded.extend(each(encode_single_unchecked(elem(chunk), exp))) | seti(loop, elem(index({patch_idx <- Eq(0, sum(each(!is_same(decode_single(encode_single_unchecked(elem(chunk), exp), exp), elem(chunk))))) | patch_idx.reserve([sum(each(!is_same(decode_single(encode_single_unchecked(elem(chunk), exp), exp), elem(chunk)))) + 1]).spare_capacity_mut().set_len([len(patch_idx) + sum(each(!is_same(decode_single(encode_single_unchecked(elem(chunk), exp), exp), elem(chunk))))]) <- !Eq(0, sum(each(!is_same(decode_single(encode_single_unchecked(elem(chunk), exp), exp), elem(chunk)))))}, RangeFrom({0 <- fill is None | len(patch_idx) <- Eq(0, sum(each(!is_same(decode_single(encode_single_unchecked(elem(chunk), exp), exp), elem(chunk))))) & fill is Some | len(patch_idx) <- fill is Some & next(len(encoded)..len(encoded.extend(each(encode_single_unchecked(elem(chunk), exp))))) is None}))), {fill <- !Lt([len(encoded) + sum(each(!is_same(decode_single(encode_single_unchecked(elem(chunk), exp), exp), elem(chunk))))], len(encoded.extend(each(encode_single_unchecked(elem(chunk), exp))))) | fill <- fill is Some | fill <- next(len(encoded)..len(encoded.extend(each(encode_single_unchecked(elem(chunk), exp))))) is None | index(encoded.extend(each(encode_single_unchecked(elem(chunk), exp))), elem(len(encoded)..len(encoded.extend(each(encode_single_unchecked(elem(chunk), exp)))))) <- Eq(0, sum(each(!is_same(decode_single(encode_single_unchecked(elem(chunk), exp), exp), elem(chunk))))) & Lt([len(encoded) + sum(each(!is_same(decode_single(encode_single_unchecked(elem(chunk), exp), exp), elem(chunk))))], len(encoded.extend(each(encode_single_unchecked(elem(chunk), exp))))) & fill is None & next(len(encoded)..len(encoded.extend(each(encode_single_unchecked(elem(chunk), exp))))) is Some})} <- next(len(encoded)..len(encoded.extend(each(encode_single_unchecked(elem(chunk), exp))))) is None}.buf
.len = {encoded.extend(each(encode_single_unchecked(elem(chunk), exp))) <- Eq(0, sum(each(!is_same(decode_single(encode_single_unchecked(elem(chunk), exp), exp), elem(chunk))))) & fill is None | encoded.extend(each(encode_single_unchecked(elem(chunk), exp))) <- fill is None & next(len(encoded)..len(encoded.extend(each(encode_single_unchecked(elem(chunk), exp))))) is None | loop{encoded.extend(each(encode_single_unchecked(elem(chunk), exp))) | seti(loop, elem(index({patch_idx <- Eq(0, sum(each(!is_same(decode_single(encode_single_unchecked(elem(chunk), exp), exp), elem(chunk))))) | patch_idx.reserve([sum(each(!is_same(decode_single(encode_single_unchecked(elem(chunk), exp), exp), elem(chunk)))) + 1]).spare_capacity_mut().set_len([len(patch_idx) + sum(each(!is_same(decode_single(encode_single_unchecked(elem(chunk), exp), exp), elem(chunk))))]) <- !Eq(0, sum(each(!is_same(decode_single(encode_single_unchecked(elem(chunk), exp), exp), elem(chunk)))))}, RangeFrom({0 <- fill is None | len(patch_idx) <- Eq(0, sum(each(!is_same(decode_single(encode_single_unchecked(elem(chunk), exp), exp), elem(chunk))))) & fill is Some | len(patch_idx) <- fill is Some & next(len(encoded)..len(encoded.extend(each(encode_single_unchecked(elem(chunk), exp))))) is None}))), {fill <- !Lt([len(encoded) + sum(each(!is_same(decode_single(encode_single_unchecked(elem(chunk), exp), exp), elem(chunk))))], len(encoded.extend(each(encode_single_unchecked(elem(chunk), exp))))) | fill <- fill is Some | fill <- next(len(encoded)..len(encoded.extend(each(encode_single_unchecked(elem(chunk), exp))))) is None | index(encoded.extend(each(encode_single_unchecked(elem(chunk), exp))), elem(len(encoded)..len(encoded.extend(each(encode_single_unchecked(elem(chunk), exp)))))) <- Eq(0, sum(each(!is_same(decode_single(encode_single_unchecked(elem(chunk), exp), exp), elem(chunk))))) & Lt([len(encoded) + sum(each(!is_same(decode_single(encode_single_unchecked(elem(chunk), exp), exp), elem(chunk))))], len(encoded.extend(each(encode_single_unchecked(elem(chunk), exp))))) & fill is None & next(len(encoded)..len(encoded.extend(each(encode_single_unchecked(elem(chunk), exp))))) is Some})} <- Eq(0, sum(each(!is_same(decode_single(encode_single_unchecked(elem(chunk), exp), exp), elem(chunk))))) | loop{encoded.extend(each(encode_single_unchecked(elem(chunk), exp))) | seti(loop, elem(index({patch_idx <- Eq(0, sum(each(!is_same(decode_single(encode_single_unchecked(elem(chunk), exp), exp), elem(chunk))))) | patch_idx.reserve([sum(each(!is_same(decode_single(encode_single_unchecked(elem(chunk), exp), exp), elem(chunk)))) + 1]).spare_capacity_mut().set_len([len(patch_idx) + sum(each(!is_same(decode_single(encode_single_unchecked(elem(chunk), exp), exp), elem(chunk))))]) <- !Eq(0, sum(each(!is_same(decode_single(encode_single_unchecked(elem(chunk), exp), exp), elem(chunk)))))}, RangeFrom({0 <- fill is None | len(patch_idx) <- Eq(0, sum(each(!is_same(decode_single(encode_single_unchecked(elem(chunk), exp), exp), elem(chunk))))) & fill is Some | len(patch_idx) <- fill is Some & next(len(encoded)..len(encoded.extend(each(encode_single_unchecked(elem(chunk), exp))))) is None}))), {fill <- !Lt([len(encoded) + sum(each(!is_same(decode_single(encode_single_unchecked(elem(chunk), exp), exp), elem(chunk))))], len(encoded.extend(each(encode_single_unchecked(elem(chunk), exp))))) | fill <- fill is Some | fill <- next(len(encoded)..len(encoded.extend(each(encode_single_unchecked(elem(chunk), exp))))) is None | index(encoded.extend(each(encode_single_unchecked(elem(chunk), exp))), elem(len(encoded)..len(encoded.extend(each(encode_single_unchecked(elem(chunk), exp)))))) <- Eq(0, sum(each(!is_same(decode_single(encode_single_unchecked(elem(chunk), exp), exp), elem(chunk))))) & Lt([len(encoded) + sum(each(!is_same(decode_single(encode_single_unchecked(elem(chunk), exp), exp), elem(chunk))))], len(encoded.extend(each(encode_single_unchecked(elem(chunk), exp))))) & fill is None & next(len(encoded)..len(encoded.extend(each(encode_single_unchecked(elem(chunk), exp))))) is Some})} <- next(len(encoded)..len(encoded.extend(each(encode_single_unchecked(elem(chunk), exp))))) is None}.len
@ vortex_alp::alp::encode_chunk_unchecked args=chunk,exp,encoded,patch_idx,patch_values,fill out=4
.buf = {patch_idx <- Eq(0, sum(each(!is_same(decode_single(encode_single_unchecked(elem(chunk), exp), exp), elem(chunk))))) | patch_idx.reserve([sum(each(!is_same(decode_single(encode_single_unchecked(elem(chunk), exp), exp), elem(chunk)))) + 1]).spare_capacity_mut().set_len([len(patch_idx) + sum(each(!is_same(decode_single(encode_single_unchecked(elem(chunk), exp), exp), elem(chunk))))]) <- !Eq(0, sum(each(!is_same(decode_single(encode_single_unchecked(elem(chunk), exp), exp), elem(chunk)))))}.buf
.len = {patch_idx <- Eq(0, sum(each(!is_same(decode_single(encode_single_unchecked(elem(chunk), exp), exp), elem(chunk))))) | patch_idx.reserve([sum(each(!is_same(decode_single(encode_single_unchecked(elem(chunk), exp), exp), elem(chunk)))) + 1]).spare_capacity_mut().set_len([len(patch_idx) + sum(each(!is_same(decode_single(encode_single_unchecked(elem(chunk), exp), exp), elem(chunk))))]) <- !Eq(0, sum(each(!is_same(decode_single(encode_single_unchecked(elem(chunk), exp), exp), elem(chunk)))))}.len
@ vortex_alp::alp::encode_chunk_unchecked args=chunk,exp,encoded,patch_idx,patch_values,fill out=5
.buf = {patch_values <- Eq(0, sum(each(!is_same(decode_single(encode_single_unchecked(elem(chunk), exp), exp), elem(chunk))))) | patch_values.reserve([sum(each(!is_same(decode_single(encode_single_unchecked(elem(chunk), exp), exp), elem(chunk)))) + 1]).spare_capacity_mut().set_len([len(patch_idx) + sum(each(!is_same(decode_single(encode_single_unchecked(elem(chunk), exp), exp), elem(chunk))))]) <- !Eq(0, sum(each(!is_same(decode_single(encode_single_unchecked(elem(chunk), exp), exp), elem(chunk)))))}.buf
.len = {patch_values <- Eq(0, sum(each(!is_same(decode_single(encode_single_unchecked(elem(chunk), exp), exp), elem(chunk))))) | patch_values.reserve([sum(each(!is_same(decode_single(encode_single_unchecked(elem(chunk), exp), exp), elem(chunk)))) + 1]).spare_capacity_mut().set_len([len(patch_idx) + sum(each(!is_same(decode_single(encode_single_unchecked(elem(chunk), exp), exp), elem(chunk))))]) <- !Eq(0, sum(each(!is_same(decode_single(encode_single_unchecked(elem(chunk), exp), exp), elem(chunk)))))}.len
@ vortex_alp::alp::encode_chunk_unchecked args=chunk,exp,encoded,patch_idx,patch_values,fill out=6
fill <- !Lt([len(encoded) + sum(each(!is_same(decode_single(encode_single_unchecked(elem(chunk), exp), exp), elem(chunk))))], len(encoded.extend(each(encode_single_unchecked(elem(chunk), exp)))))
fill <- fill is Some
fill <- next(len(encoded)..len(encoded.extend(each(encode_single_unchecked(elem(chunk), exp))))) is None
index(encoded.extend(each(encode_single_unchecked(elem(chunk), exp))), elem(len(encoded)..len(encoded.extend(each(encode_single_unchecked(elem(chunk), exp)))))) <- Eq(0, sum(each(!is_same(decode_single(encode_single_unchecked(elem(chunk), exp), exp), elem(chunk))))) & Lt([len(encoded) + sum(each(!is_same(decode_single(encode_single_unchecked(elem(chunk), exp), exp), elem(chunk))))], len(encoded.extend(each(encode_single_unchecked(elem(chunk), exp))))) & fill is None & next(len(encoded)..len(encoded.extend(each(encode_single_unchecked(elem(chunk), exp))))) is Some
@ <vortex_alp::alp_rd::RDEncoder>::encode args=self,array
encode_generic(self, array)
@ <vortex_alp::alp_rd::RDEncoder>::new args=sample
RDEncoder(find_best_dictionary(sample).right_bit_width, loop{from_elem(0, len(find_best_dictionary(sample).dictionary)) | seti(loop, elem(find_best_dictionary(sample).dictionary).1, elem(find_best_dictionary(sample).dictionary).0)})
@ vortex_dict::compress::dict_encode_primitive args=array,values
dict_encode_typed_primitive(array)
@ vortex_dict::compress::dict_encode_typed_primitive args=array,values voc=dict_encode_typed_primitive,dict_encode_typed_varbin,lookup_bytes,with_iterator
(PrimitiveArray.from_vec(loop{Vec.new() | each(0) | each({get(entry(loop{HashMap.new() | loop.entry(Value(elem($0))) <- elem($0) is Some}, Value(elem($0)))@Occupied.0) <- entry(loop{HashMap.new() | loop.entry(Value(elem($0))) <- elem($0) is Some}, Value(elem($0))) is Occupied | len(each(elem($0))) <- entry(loop{HashMap.new() | loop.entry(Value(elem($0))) <- elem($0) is Some}, Value(elem($0))) is Vacant})}, NonNullable), PrimitiveArray.from_vec(loop{Vec.new() | each(elem($0)) | each(zero())}, {AllInvalid <- !iall(seti(from_elem(True, len(loop{Vec.new() | each(elem($0)) | each(zero())})), 0, False), elem(seti(from_elem(True, len(loop{Vec.new() | each(elem($0)) | each(zero())})), 0, False))) & iall(seti(from_elem(True, len(loop{Vec.new() | each(elem($0)) | each(zero())})), 0, False), !elem(seti(from_elem(True, len(loop{Vec.new() | each(elem($0)) | each(zero())})), 0, False))) & nullability(dtype(array)) is Nullable | AllValid <- iall(seti(from_elem(True, len(loop{Vec.new() | each(elem($0)) | each(zero())})), 0, False), elem(seti(from_elem(True, len(loop{Vec.new() | each(elem($0)) | each(zero())})), 0, False))) & nullability(dtype(array)) is Nullable | Array(BoolArray.from_vec(seti(from_elem(True, len(loop{Vec.new() | each(elem($0)) | each(zero())})), 0, False), NonNullable)) <- !iall(seti(from_elem(True, len(loop{Vec.new() | each(elem($0)) | each(zero())})), 0, False), !elem(seti(from_elem(True, len(loop{Vec.new() | each(elem($0)) | each(zero())})), 0, False))) & !iall(seti(from_elem(True, len(loop{Vec.new() | each(elem($0)) | each(zero())})), 0, False), elem(seti(from_elem(True, len(loop{Vec.new() | each(elem($0)) | each(zero())})), 0, False))) & nullability(dtype(array)) is Nullable | nullability(dtype(array)) <- nullability(dtype(array)) is NonNullable}))
@ vortex_dict::compress::dict_encode_varbin args=array,values voc=with_iterator
ArrayAccessor.with_iterator(array, fn(dict_encode_typed_varbin(dtype(array), $0)))
@ vortex_dict::compress::dict_encode_varbinview args=array,values voc=with_iterator
(ArrayAccessor.with_iterator(array, fn(dict_encode_typed_varbin(dtype(array), $0))).0, ArrayAccessor.with_iterator(array, fn(dict_encode_typed_varbin(dtype(array), $0))).1)
@ vortex_dict::compress::lookup_bytes args=offsets,bytes,idx
index(bytes, index(offsets, idx)..index(offsets, [idx + 1]))
@ <vortex_dict::compress::Value<T> as core::cmp::PartialEq<vortex_dict::compress::Value<T>>>::eq args=self,other
Eq(to_le_bytes(other.0), to_le_bytes(self.0))
@ <vortex_dict::compress::Value<T> as core::hash::Hash>::hash args=self,other
hash(to_le_bytes(self.0), other)
@ vortex_fastlanes::bitpacking::compress::bitpack args=array,a,b voc=bitpack,bitpack_primitive,gather_patches,count_exceptions,compute_bit_width_freq,min_patchless_bit_width,best_bit_width
bitpack_primitive(maybe_null_slice({PrimitiveArray.new({array@Data.0.buffer <- array is Data | index(array@View.0.buffers, get(Table.new(array@View.0.flatbuffer, array@View.0.flatbuffer_loc), 6, None)) <- array is View}, {U16 <- ptype(array) is I16 | U32 <- ptype(array) is I32 | U64 <- ptype(array) is I64 | U8 <- ptype(array) is I8 | ptype(array) <- ptype(array) is F16|F32|F64|U16|U32|U64|U8}, validity(array)) <- !Eq(ptype(array), {U16 <- ptype(array) is I16 | U32 <- ptype(array) is I32 | U64 <- ptype(array) is I64 | U8 <- ptype(array) is I8 | ptype(array) <- ptype(array) is F16|F32|F64|U16|U32|U64|U8}) | array <- Eq(ptype(array), {U16 <- ptype(array) is I16 | U32 <- ptype(array) is I32 | U64 <- ptype(array) is I64 | U8 <- ptype(array) is I8 | ptype(array) <- ptype(array) is F16|F32|F64|U16|U32|U64|U8})}), a)
@ vortex_fastlanes::bitpacking::compress::bitpack_encode args=array,a,b voc=bitpack,bitpack_primitive,gather_patches,count_exceptions,compute_bit_width_freq,min_patchless_bit_width,best_bit_width
BitPackedArray.try_new(bitpack(array, a), ptype(array), validity(array), gather_patches(array, a, count_exceptions(a, compute_bit_width_freq(array@*))), a, len(array))
@ vortex_fastlanes::bitpacking::compress::bitpack_encode_unchecked args=array,a,b voc=bitpack,bitpack_primitive,gather_patches,count_exceptions,compute_bit_width_freq,min_patchless_bit_width,best_bit_width
BitPackedArray.try_new(bitpack(array, a), ptype(array), validity(array), None, a, len(array))
@ vortex_fastlanes::bitpacking::compress::count_exceptions args=array,a,b
0 <- !Lt(array, len(a))
sum(index(a, RangeFrom([array + 1]))) <- Lt(array, len(a))
@ vortex_fastlanes::bitpacking::compress::find_min_patchless_bit_width args=array,a,b
min_patchless_bit_width(compute_bit_width_freq(array@*))
@ vortex_fastlanes::bitpacking::compress::min_patchless_bit_width args=array,a,b
or(fmap(enumerate(array), optfilter(as_u8(pos(array)), !Eq(0, elem(array)))), 0)
@ vortex_fastlanes::bitpacking::compress::bitpack_primitive args=array,bit_width ptype=U32
Arrow(Buffer.from_vec({seti(loop.reserve(div([128*bit_width], size_of())).set_len([div([128*bit_width], size_of()) + len(loop.reserve(div([128*bit_width], size_of())))]), RangeFrom(len(loop.reserve(div([128*bit_width], size_of())))), seti(index(loop.reserve(div([128*bit_width], size_of())).set_len([div([128*bit_width], size_of()) + len(loop.reserve(div([128*bit_width], size_of())))]), RangeFrom(len(loop.reserve(div([128*bit_width], size_of()))))), RangeTo(div([128*bit_width], size_of())), index(loop.reserve(div([128*bit_width], size_of())).set_len([div([128*bit_width], size_of()) + len(loop.reserve(div([128*bit_width], size_of())))]), len(loop.reserve(div([128*bit_width], size_of())))..[div([128*bit_width], size_of()) + len(loop.reserve(div([128*bit_width], size_of())))]).unchecked_pack(bit_width, index(array, [1024*elem(0..div(len(array), 1024))]..[1024*elem(0..div(len(array), 1024)) + 1024])))) <- Eq(div([len(array) + 1023], 1024), div(len(array), 1024)) | seti(seti(loop.reserve(div([128*bit_width], size_of())).set_len([div([128*bit_width], size_of()) + len(loop.reserve(div([128*bit_width], size_of())))]), RangeFrom(len(loop.reserve(div([128*bit_width], size_of())))), seti(index(loop.reserve(div([128*bit_width], size_of())).set_len([div([128*bit_width], size_of()) + len(loop.reserve(div([128*bit_width], size_of())))]), RangeFrom(len(loop.reserve(div([128*bit_width], size_of()))))), RangeTo(div([128*bit_width], size_of())), index(loop.reserve(div([128*bit_width], size_of())).set_len([div([128*bit_width], size_of()) + len(loop.reserve(div([128*bit_width], size_of())))]), len(loop.reserve(div([128*bit_width], size_of())))..[div([128*bit_width], size_of()) + len(loop.reserve(div([128*bit_width], size_of())))]).unchecked_pack(bit_width, index(array, [1024*elem(0..div(len(array), 1024))]..[1024*elem(0..div(len(array), 1024)) + 1024])))).reserve(div([128*bit_width], size_of())).set_len([div([128*bit_width], size_of()) + len(seti(loop.reserve(div([128*bit_width], size_of())).set_len([div([128*bit_width], size_of()) + len(loop.reserve(div([128*bit_width], size_of())))]), RangeFrom(len(loop.reserve(div([128*bit_width], size_of())))), seti(index(loop.reserve(div([128*bit_width], size_of())).set_len([div([128*bit_width], size_of()) + len(loop.reserve(div([128*bit_width], size_of())))]), RangeFrom(len(loop.reserve(div([128*bit_width], size_of()))))), RangeTo(div([128*bit_width], size_of())), index(loop.reserve(div([128*bit_width], size_of())).set_len([div([128*bit_width], size_of()) + len(loop.reserve(div([128*bit_width], size_of())))]), len(loop.reserve(div([128*bit_width], size_of())))..[div([128*bit_width], size_of()) + len(loop.reserve(div([128*bit_width], size_of())))]).unchecked_pack(bit_width, index(array, [1024*elem(0..div(len(array), 1024))]..[1024*elem(0..div(len(array), 1024)) + 1024])))).reserve(div([128*bit_width], size_of())))]), RangeFrom(len(seti(loop.reserve(div([128*bit_width], size_of())).set_len([div([128*bit_width], size_of()) + len(loop.reserve(div([128*bit_width], size_of())))]), RangeFrom(len(loop.reserve(div([128*bit_width], size_of())))), seti(index(loop.reserve(div([128*bit_width], size_of())).set_len([div([128*bit_width], size_of()) + len(loop.reserve(div([128*bit_width], size_of())))]), RangeFrom(len(loop.reserve(div([128*bit_width], size_of()))))), RangeTo(div([128*bit_width], size_of())), index(loop.reserve(div([128*bit_width], size_of())).set_len([div([128*bit_width], size_of()) + len(loop.reserve(div([128*bit_width], size_of())))]), len(loop.reserve(div([128*bit_width], size_of())))..[div([128*bit_width], size_of()) + len(loop.reserve(div([128*bit_width], size_of())))]).unchecked_pack(bit_width, index(array, [1024*elem(0..div(len(array), 1024))]..[1024*elem(0..div(len(array), 1024)) + 1024])))).reserve(div([128*bit_width], size_of())))), seti(index(seti(loop.reserve(div([128*bit_width], size_of())).set_len([div([128*bit_width], size_of()) + len(loop.reserve(div([128*bit_width], size_of())))]), RangeFrom(len(loop.reserve(div([128*bit_width], size_of())))), seti(index(loop.reserve(div([128*bit_width], size_of())).set_len([div([128*bit_width], size_of()) + len(loop.reserve(div([128*bit_width], size_of())))]), RangeFrom(len(loop.reserve(div([128*bit_width], size_of()))))), RangeTo(div([128*bit_width], size_of())), index(loop.reserve(div([128*bit_width], size_of())).set_len([div([128*bit_width], size_of()) + len(loop.reserve(div([128*bit_width], size_of())))]), len(loop.reserve(div([128*bit_width], size_of())))..[div([128*bit_width], size_of()) + len(loop.reserve(div([128*bit_width], size_of())))]).unchecked_pack(bit_width, index(array, [1024*elem(0..div(len(array), 1024))]..[1024*elem(0..div(len(array), 1024)) + 1024])))).reserve(div([128*bit_width], size_of())).set_len([div([128*bit_width], size_of()) + len(seti(loop.reserve(div([128*bit_width], size_of())).set_len([div([128*bit_width], size_of()) + len(loop.reserve(div([128*bit_width], size_of())))]), RangeFrom(len(loop.reserve(div([128*bit_width], size_of())))), seti(index(loop.reserve(div([128*bit_width], size_of())).set_len([div([128*bit_width], size_of()) + len(loop.reserve(div([128*bit_width], size_of())))]), RangeFrom(len(loop.reserve(div([128*bit_width], size_of()))))), RangeTo(div([128*bit_width], size_of())), index(loop.reserve(div([128*bit_width], size_of())).set_len([div([128*bit_width], size_of()) + len(loop.reserve(div([128*bit_width], size_of())))]), len(loop.reserve(div([128*bit_width], size_of())))..[div([128*bit_width], size_of()) + len(loop.reserve(div([128*bit_width], size_of())))]).unchecked_pack(bit_width, index(array, [1024*elem(0..div(len(array), 1024))]..[1024*elem(0..div(len(array), 1024)) + 1024])))).reserve(div([128*bit_width], size_of())))]), RangeFrom(len(seti(loop.reserve(div([128*bit_width], size_of())).set_len([div([128*bit_width], size_of()) + len(loop.reserve(div([128*bit_width], size_of())))]), RangeFrom(len(loop.reserve(div([128*bit_width], size_of())))), seti(index(loop.reserve(div([128*bit_width], size_of())).set_len([div([128*bit_width], size_of()) + len(loop.reserve(div([128*bit_width], size_of())))]), RangeFrom(len(loop.reserve(div([128*bit_width], size_of()))))), RangeTo(div([128*bit_width], size_of())), index(loop.reserve(div([128*bit_width], size_of())).set_len([div([128*bit_width], size_of()) + len(loop.reserve(div([128*bit_width], size_of())))]), len(loop.reserve(div([128*bit_width], size_of())))..[div([128*bit_width], size_of()) + len(loop.reserve(div([128*bit_width], size_of())))]).unchecked_pack(bit_width, index(array, [1024*elem(0..div(len(array), 1024))]..[1024*elem(0..div(len(array), 1024)) + 1024])))).reserve(div([128*bit_width], size_of()))))), RangeTo(div([128*bit_width], size_of())), index(seti(loop.reserve(div([128*bit_width], size_of())).set_len([div([128*bit_width], size_of()) + len(loop.reserve(div([128*bit_width], size_of())))]), RangeFrom(len(loop.reserve(div([128*bit_width], size_of())))), seti(index(loop.reserve(div([128*bit_width], size_of())).set_len([div([128*bit_width], size_of()) + len(loop.reserve(div([128*bit_width], size_of())))]), RangeFrom(len(loop.reserve(div([128*bit_width], size_of()))))), RangeTo(div([128*bit_width], size_of())), index(loop.reserve(div([128*bit_width], size_of())).set_len([div([128*bit_width], size_of()) + len(loop.reserve(div([128*bit_width], size_of())))]), len(loop.reserve(div([128*bit_width], size_of())))..[div([128*bit_width], size_of()) + len(loop.reserve(div([128*bit_width], size_of())))]).unchecked_pack(bit_width, index(array, [1024*elem(0..div(len(array), 1024))]..[1024*elem(0..div(len(array), 1024)) + 1024])))).reserve(div([128*bit_width], size_of())).set_len([div([128*bit_width], size_of()) + len(seti(loop.reserve(div([128*bit_width], size_of())).set_len([div([128*bit_width], size_of()) + len(loop.reserve(div([128*bit_width], size_of())))]), RangeFrom(len(loop.reserve(div([128*bit_width], size_of())))), seti(index(loop.reserve(div([128*bit_width], size_of())).set_len([div([128*bit_width], size_of()) + len(loop.reserve(div([128*bit_width], size_of())))]), RangeFrom(len(loop.reserve(div([128*bit_width], size_of()))))), RangeTo(div([128*bit_width], size_of())), index(loop.reserve(div([128*bit_width], size_of())).set_len([div([128*bit_width], size_of()) + len(loop.reserve(div([128*bit_width], size_of())))]), len(loop.reserve(div([128*bit_width], size_of())))..[div([128*bit_width], size_of()) + len(loop.reserve(div([128*bit_width], size_of())))]).unchecked_pack(bit_width, index(array, [1024*elem(0..div(len(array), 1024))]..[1024*elem(0..div(len(array), 1024)) + 1024])))).reserve(div([128*bit_width], size_of())))]), len(seti(loop.reserve(div([128*bit_width], size_of())).set_len([div([128*bit_width], size_of()) + len(loop.reserve(div([128*bit_width], size_of())))]), RangeFrom(len(loop.reserve(div([128*bit_width], size_of())))), seti(index(loop.reserve(div([128*bit_width], size_of())).set_len([div([128*bit_width], size_of()) + len(loop.reserve(div([128*bit_width], size_of())))]), RangeFrom(len(loop.reserve(div([128*bit_width], size_of()))))), RangeTo(div([128*bit_width], size_of())), index(loop.reserve(div([128*bit_width], size_of())).set_len([div([128*bit_width], size_of()) + len(loop.reserve(div([128*bit_width], size_of())))]), len(loop.reserve(div([128*bit_width], size_of())))..[div([128*bit_width], size_of()) + len(loop.reserve(div([128*bit_width], size_of())))]).unchecked_pack(bit_width, index(array, [1024*elem(0..div(len(array), 1024))]..[1024*elem(0..div(len(array), 1024)) + 1024])))).reserve(div([128*bit_width], size_of())))..[div([128*bit_width], size_of()) + len(seti(loop.reserve(div([128*bit_width], size_of())).set_len([div([128*bit_width], size_of()) + len(loop.reserve(div([128*bit_width], size_of())))]), RangeFrom(len(loop.reserve(div([128*bit_width], size_of())))), seti(index(loop.reserve(div([128*bit_width], size_of())).set_len([div([128*bit_width], size_of()) + len(loop.reserve(div([128*bit_width], size_of())))]), RangeFrom(len(loop.reserve(div([128*bit_width], size_of()))))), RangeTo(div([128*bit_width], size_of())), index(loop.reserve(div([128*bit_width], size_of())).set_len([div([128*bit_width], size_of()) + len(loop.reserve(div([128*bit_width], size_of())))]), len(loop.reserve(div([128*bit_width], size_of())))..[div([128*bit_width], size_of()) + len(loop.reserve(div([128*bit_width], size_of())))]).unchecked_pack(bit_width, index(array, [1024*elem(0..div(len(array), 1024))]..[1024*elem(0..div(len(array), 1024)) + 1024])))).reserve(div([128*bit_width], size_of())))]).unchecked_pack(bit_width, seti(rep(zero(), 1024), RangeTo(rem(len(array), 1024)), index(rep(zero(), 1024), 0..rem(len(array), 1024)).copy_from_slice(index(array, RangeFrom([1024*div(len(array), 1024)]))))))) <- !Eq(div([len(array) + 1023], 1024), div(len(array), 1024))})) <- !Eq(0, bit_width)
Arrow(MutableBuffer.from_len_zeroed(0)) <- Eq(0, bit_width)
@ <vortex_fastlanes::bitpacking::BitPackedArray>::encode args=array,bit_width
bitpack_encode(TryFrom.try_from(array), bit_width)
@ vortex_fastlanes::delta::compress::delta_compress args=array voc=compress_primitive
(PrimitiveArray.from_vec(compress_primitive(maybe_null_slice(fill_forward(array))).0, or(optfilter(AllValid, nullability(validity(array)) is Nullable), NonNullable)), PrimitiveArray.from_vec(compress_primitive(maybe_null_slice(fill_forward(array))).1, or(optfilter(AllValid, nullability(validity(array)) is Nullable), NonNullable)))
@ vortex_fastlanes::delta::compress::compress_primitive args=array ptype=U32
({Vec.with_capacity() <- Eq(0, div(len(array), 1024)) & Eq(0, rem(len(array), 1024)) | loop.extend(loop{loop | rep(default(T), None)}.copy_from_slice(index(loop{loop | rep(default(T), 1024)}.transpose(as_array(index(array, [1024*elem(0..div(len(array), 1024))]..[1024*elem(0..div(len(array), 1024)) + 1024]))), 0..LANES))) <- !Eq(0, div(len(array), 1024)) & Eq(0, rem(len(array), 1024)) | {Vec.with_capacity() <- Eq(0, div(len(array), 1024)) | loop.extend(loop{loop | rep(default(T), None)}.copy_from_slice(index(loop{loop | rep(default(T), 1024)}.transpose(as_array(index(array, [1024*elem(0..div(len(array), 1024))]..[1024*elem(0..div(len(array), 1024)) + 1024]))), 0..LANES))) <- !Eq(0, div(len(array), 1024))}.push(index(array, [1024*div(len(array), 1024)])) <- !Eq(0, rem(len(array), 1024))}, {Vec.with_capacity() <- Eq(0, div(len(array), 1024)) & Eq(0, rem(len(array), 1024)) | loop{each(wrapping_sub(elem(index(array, RangeFrom([1024*div(len(array), 1024)]))), loop{elem(index(array, RangeFrom([1024*div(len(array), 1024)]))) | index(array, [1024*div(len(array), 1024)])})) | seti(loop.reserve(1024).set_len([len(loop.reserve(1024)) + 1024]), RangeFrom(len(loop.reserve(1024))), seti(index(loop.reserve(1024).set_len([len(loop.reserve(1024)) + 1024]), RangeFrom(len(loop.reserve(1024)))), 0..1024, index(loop.reserve(1024).set_len([len(loop.reserve(1024)) + 1024]), len(loop.reserve(1024))..[len(loop.reserve(1024)) + 1024]).as_mut_ptr()))} <- !Eq(0, rem(len(array), 1024)) | seti(loop.reserve(1024).set_len([len(loop.reserve(1024)) + 1024]), RangeFrom(len(loop.reserve(1024))), seti(index(loop.reserve(1024).set_len([len(loop.reserve(1024)) + 1024]), RangeFrom(len(loop.reserve(1024)))), 0..1024, index(loop.reserve(1024).set_len([len(loop.reserve(1024)) + 1024]), len(loop.reserve(1024))..[len(loop.reserve(1024)) + 1024]).as_mut_ptr())) <- !Eq(0, div(len(array), 1024)) & Eq(0, rem(len(array), 1024))})
@ <vortex_fastlanes::delta::DeltaArray>::try_from_delta_compress_parts args=a,b,c
DeltaArray.try_new(a, b, c, 0, len(b))
@ <vortex_fastlanes::delta::DeltaArray>::try_from_primitive_array args=a,b,c voc=try_from_delta_compress_parts
DeltaArray.try_from_delta_compress_parts(delta_compress(a).0, delta_compress(a).1, validity(a))
@ <vortex_fastlanes::delta::DeltaArray>::try_from_vec args=a,b,c
DeltaArray.try_from_primitive_array(PrimitiveArray.from_vec(a, NonNullable))
@ vortex_fastlanes::for::compress::for_compress args=array voc=compress_primitive,trailing_zeros,reinterpret_cast,to_logical,into_bool,boolean_buffer ptype=U32 types=U64,U8
{ConstantArray.new(Scalar(dtype(array), Null), to_logical(validity(array), len(array))@AllInvalid.0) <- Eq(as_u8([8*byte_width(U32)]), trailing_zeros(array)) & to_logical(validity(array), len(array)) is AllInvalid | ConstantArray.new(zero(nullability(dtype(array))), to_logical(validity(array), len(array))@AllValid.0) <- Eq(as_u8([8*byte_width(U32)]), trailing_zeros(array)) & to_logical(validity(array), len(array)) is AllValid | FoRArray.try_new(reinterpret_cast(compress_primitive(array, trailing_zeros(array), TryFrom.try_from(compute(array@*, Min))), U32), compute(array@*, Min), trailing_zeros(array)) <- !Eq(as_u8([8*byte_width(U32)]), trailing_zeros(array)) | SparseArray.try_new(PrimitiveArray.from_vec(each(elem(set_indices(boolean_buffer(to_logical(validity(array), len(array))@Array.0)))), NonNullable), ConstantArray.new(zero(nullability(dtype(array))), len(PrimitiveArray.from_vec(each(elem(set_indices(boolean_buffer(to_logical(validity(array), len(array))@Array.0)))), NonNullable))), len(array), Null) <- Eq(as_u8([8*byte_width(U32)]), trailing_zeros(array)) & to_logical(validity(array), len(array)) is Array}
@ vortex_fastlanes::for::compress::for_compress args=array voc=compress_primitive,trailing_zeros,reinterpret_cast,to_logical,into_bool,boolean_buffer ptype=I32 types=-
{ConstantArray.new(Scalar(dtype(array), Null), to_logical(validity(array), len(array))@AllInvalid.0) <- Eq(as_u8([8*byte_width(I32)]), trailing_zeros(array)) & to_logical(validity(array), len(array)) is AllInvalid | ConstantArray.new(zero(nullability(dtype(array))), to_logical(validity(array), len(array))@AllValid.0) <- Eq(as_u8([8*byte_width(I32)]), trailing_zeros(array)) & to_logical(validity(array), len(array)) is AllValid | FoRArray.try_new(reinterpret_cast(compress_primitive(array, trailing_zeros(array), TryFrom.try_from(compute(array@*, Min))), U32), compute(array@*, Min), trailing_zeros(array)) <- !Eq(as_u8([8*byte_width(I32)]), trailing_zeros(array)) | SparseArray.try_new(PrimitiveArray.from_vec(each(elem(set_indices(boolean_buffer(to_logical(validity(array), len(array))@Array.0)))), NonNullable), ConstantArray.new(zero(nullability(dtype(array))), len(PrimitiveArray.from_vec(each(elem(set_indices(boolean_buffer(to_logical(validity(array), len(array))@Array.0)))), NonNullable))), len(array), Null) <- Eq(as_u8([8*byte_width(I32)]), trailing_zeros(array)) & to_logical(validity(array), len(array)) is Array}
@ vortex_fastlanes::for::compress::compress_primitive args=array,shift,min ptype=I32
PrimitiveArray.from_vec({each(shr(wrapping_sub(elem(maybe_null_slice(array)), min), shift)) <- !Eq(0, shift) | each(wrapping_sub(elem(maybe_null_slice(array)), min)) <- Eq(0, shift)}, validity(array))
@ vortex_fsst::compress::fsst_compress args=array,compressor voc=with_iterator
ArrayAccessor.with_iterator(TryFrom.try_from(array), fn(fsst_compress_iter($0, len(array), dtype(array), compressor)))
@ vortex_fsst::compress::fsst_compress_iter args=iter,len,dtype,compressor
FSSTArray.try_new(dtype, PrimitiveArray.from_vec(transmute(symbol_table(compressor)), NonNullable), PrimitiveArray.from_vec(symbol_lengths(compressor), NonNullable), finish(loop{VarBinBuilder(Vec.with_capacity().push(zero()), BytesMut.new(), NullBufferBuilder.new(len)) | with(with(loop.offsets=loop{each([len(loop.compress_into(compressor, elem(iter))) + len(loop{BytesMut.new() | loop.extend_from_slice(loop.compress_into(compressor, elem(iter))) <- elem(iter) is Some})]) | each(index(loop, [len(loop) - 1]))}.push(index(loop{each([len(loop.compress_into(compressor, elem(iter))) + len(loop{BytesMut.new() | loop.extend_from_slice(loop.compress_into(compressor, elem(iter))) <- elem(iter) is Some})]) | each(loop)}, [len(loop{each([len(loop.compress_into(compressor, elem(iter))) + len(loop{BytesMut.new() | loop.extend_from_slice(loop.compress_into(compressor, elem(iter))) <- elem(iter) is Some})]) | each(loop)}) - 1]))).validity=loop{NullBufferBuilder.new(len) | loop | loop.append_non_null()}.append_null()) | with(with(with(loop.offsets=loop{each([len(loop.compress_into(compressor, elem(iter))) + len(loop{BytesMut.new() | loop.extend_from_slice(loop.compress_into(compressor, elem(iter))) <- elem(iter) is Some})]) | each(index(loop, [len(loop) - 1]))}.push([len(loop.compress_into(compressor, elem(iter))) + len(loop{BytesMut.new() | loop.extend_from_slice(loop.compress_into(compressor, elem(iter))) <- elem(iter) is Some})])).data=loop{BytesMut.new() | loop}.extend_from_slice(loop.compress_into(compressor, elem(iter)))).validity=loop{NullBufferBuilder.new(len) | loop | loop.append_null()}.append_non_null())}, Binary(nullability(dtype))), PrimitiveArray.from_vec(loop{each(0) | each(as_i32(len(elem(iter))))}, NonNullable))
@ vortex_roaring::boolean::compress::roaring_bool_encode args=array
RoaringBoolArray.try_new(Bitmap.new().extend(each(as_u32(elem(set_indices(boolean_buffer(array)))))).run_optimize().shrink_to_fit(), len(array))
@ vortex_roaring::integer::compress::roaring_encode_primitive args=array
RoaringIntArray.try_new(Bitmap.new().extend(each(to_u32(elem(array)))).run_optimize().shrink_to_fit(), PTYPE)
@ vortex_roaring::integer::compress::roaring_int_encode args=array
roaring_encode_primitive(maybe_null_slice(array))
@ <vortex_roaring::boolean::RoaringBoolArray>::encode args=array
roaring_bool_encode(TryFrom.try_from(array))
@ <vortex_roaring::integer::RoaringIntArray>::encode args=array
roaring_int_encode(TryFrom.try_from(array))
@ vortex_runend::compress::runend_encode args=array ptype=I32
(PrimitiveArray.from_vec(runend_encode_primitive(maybe_null_slice(array)).0, NonNullable), PrimitiveArray.from_vec(runend_encode_primitive(maybe_null_slice(array)).1, {AllValid <- nullability(dtype(array)) is Nullable | nullability(dtype(array)) <- nullability(dtype(array)) is NonNullable}))
@ vortex_runend_bool::compress::runend_bool_encode args=elements
(PrimitiveArray.from_vec(runend_bool_encode_slice(boolean_buffer(elements)).0, NonNullable), runend_bool_encode_slice(boolean_buffer(elements)).1)
@ vortex_runend_bool::compress::runend_bool_encode_slice args=elements
([len(elements)], False)
({loop{each(elem(set_slices(elements)).1) | {Vec.new() <- Eq(0, elem(set_slices(elements)).0) | Vec.new().push(elem(set_slices(elements)).0) <- !Eq(0, elem(set_slices(elements)).0)}.push(elem(set_slices(elements)).1)} <- Eq(last(loop{each(elem(set_slices(elements)).1) | {Vec.new() <- Eq(0, elem(set_slices(elements)).0) | Vec.new().push(elem(set_slices(elements)).0) <- !Eq(0, elem(set_slices(elements)).0)}.push(elem(set_slices(elements)).1)}), len(elements)) | loop{each(elem(set_slices(elements)).1) | {Vec.new() <- Eq(0, elem(set_slices(elements)).0) | Vec.new().push(elem(set_slices(elements)).0) <- !Eq(0, elem(set_slices(elements)).0)}.push(elem(set_slices(elements)).1)}.push(len(elements)) <- !Eq(last(loop{each(elem(set_slices(elements)).1) | {Vec.new() <- Eq(0, elem(set_slices(elements)).0) | Vec.new().push(elem(set_slices(elements)).0) <- !Eq(0, elem(set_slices(elements)).0)}.push(elem(set_slices(elements)).1)}), len(elements))}, Eq(0, elem(set_slices(elements)).0))
@ <vortex_runend::array::RunEndArray>::encode args=array
RunEndArray.try_new(runend_encode(TryFrom.try_from(array)).0, runend_encode(TryFrom.try_from(array)).1, validity(TryFrom.try_from(array)))
@ vortex_zigzag::compress::zigzag_encode args=array,validity voc=zigzag_encode_primitive
ZigZagArray.try_new(zigzag_encode_primitive(or(into_vec({array@Data.0.buffer <- array is Data | index(array@View.0.buffers, get(Table.new(array@View.0.flatbuffer, array@View.0.flatbuffer_loc), 6, None)) <- array is View}), align_to(into_vec({array@Data.0.buffer <- array is Data | index(array@View.0.buffers, get(Table.new(array@View.0.flatbuffer, array@View.0.flatbuffer_loc), 6, None)) <- array is View})@Err.0@*).1), validity(array)))
@ vortex_zigzag::compress::zigzag_encode_primitive args=array,validity
PrimitiveArray.from_vec(each(encode(elem(array))), validity)
@ <vortex_zigzag::array::ZigZagArray>::encode args=array
zigzag_encode(TryFrom.try_from(array))
@ vortex_datetime_parts::compress::split_temporal args=array
TemporalParts(PrimitiveArray.from_vec(each(div(elem(maybe_null_slice(as_primitive(try_cast(child(array.ext, 0, storage_dtype(array.ext), len(array.ext)), Primitive(I64, nullability(dtype(child(array.ext, 0, storage_dtype(array.ext), len(array.ext))))))))), [86400*{1 | 1000 | 1000000 | 1000000000}])), validity(child(array.ext, 0, storage_dtype(array.ext), len(array.ext)))), PrimitiveArray.from_vec(each(div(rem(elem(maybe_null_slice(as_primitive(try_cast(child(array.ext, 0, storage_dtype(array.ext), len(array.ext)), Primitive(I64, nullability(dtype(child(array.ext, 0, storage_dtype(array.ext), len(array.ext))))))))), [86400*{1 | 1000 | 1000000 | 1000000000}]), {1 | 1000 | 1000000 | 1000000000})), NonNullable), PrimitiveArray.from_vec(each(rem(rem(elem(maybe_null_slice(as_primitive(try_cast(child(array.ext, 0, storage_dtype(array.ext), len(array.ext)), Primitive(I64, nullability(dtype(child(array.ext, 0, storage_dtype(array.ext), len(array.ext))))))))), [86400*{1 | 1000 | 1000000 | 1000000000}]), {1 | 1000 | 1000000 | 1000000000})), NonNullable))
@ vortex_alp::alp::ALPFloat::encode_single args=value,exponents errs=1
encode_single_unchecked(value, exponents) <- is_same(decode_single(encode_single_unchecked(value, exponents), exponents), value)
@ vortex_alp::alp::ALPFloat::encode_single args=value,exponents calls=is_same voc=encode_single_unchecked,decode_single,is_same n=1
is_same(decode_single(encode_single_unchecked(value, exponents), exponents), value)
@ vortex_alp::alp::encode_chunk_unchecked args=chunk,exp,encoded,patch_idx,patch_values,fill calls=write#1 under=all each=1 voc=encode_single_unchecked,decode_single,is_same n=2
write(elem(len(encoded)..len(encoded.extend(each(encode_single_unchecked(elem(chunk), exp)))))) <- !Eq(0, sum(each(!is_same(decode_single(encode_single_unchecked(elem(chunk), exp), exp), elem(chunk)))))
write(index(chunk, [elem(len(encoded)..len(encoded.extend(each(encode_single_unchecked(elem(chunk), exp))))) - len(encoded)])) <- !Eq(0, sum(each(!is_same(decode_single(encode_single_unchecked(elem(chunk), exp), exp), elem(chunk)))))
@ vortex_alp::alp::encode_chunk_unchecked args=chunk,exp,encoded,patch_idx,patch_values,fill calls=is_same under=1 voc=encode_single_unchecked,decode_single,is_same n=2
is_same(decode_single(encode_single_unchecked(elem(chunk), exp), exp), elem(chunk)) <- Eq(len(patch_idx), len(patch_values))
is_same(decode_single(index(encoded.extend(each(encode_single_unchecked(elem(chunk), exp))), elem(len(encoded)..len(encoded.extend(each(encode_single_unchecked(elem(chunk), exp)))))), exp), index(chunk, [elem(len(encoded)..len(encoded.extend(each(encode_single_unchecked(elem(chunk), exp))))) - len(encoded)])) <- !Eq(0, sum(each(!is_same(decode_single(encode_single_unchecked(elem(chunk), exp), exp), elem(chunk))))) & Eq([len(chunk) + len(encoded)], len(encoded.extend(each(encode_single_unchecked(elem(chunk), exp))))) & Eq(len(patch_idx), len(patch_values)) & Lt([elem(len(encoded)..len(encoded.extend(each(encode_single_unchecked(elem(chunk), exp))))) - len(encoded)], len(chunk)) & Lt(sum(each(!is_same(decode_single(index(encoded.extend(each(encode_single_unchecked(elem(chunk), exp))), elem(len(encoded)..len(encoded.extend(each(encode_single_unchecked(elem(chunk), exp)))))), exp), index(chunk, [elem(len(encoded)..len(encoded.extend(each(encode_single_unchecked(elem(chunk), exp))))) - len(encoded)])))), len(loop{seti(loop, sum(each(!is_same(decode_single(index(encoded.extend(each(encode_single_unchecked(elem(chunk), exp))), elem(len(encoded)..len(encoded.extend(each(encode_single_unchecked(elem(chunk), exp)))))), exp), index(chunk, [elem(len(encoded)..len(encoded.extend(each(encode_single_unchecked(elem(chunk), exp))))) - len(encoded)])))), index(loop, sum(each(!is_same(decode_single(index(encoded.extend(each(encode_single_unchecked(elem(chunk), exp))), elem(len(encoded)..len(encoded.extend(each(encode_single_unchecked(elem(chunk), exp)))))), exp), index(chunk, [elem(len(encoded)..len(encoded.extend(each(encode_single_unchecked(elem(chunk), exp))))) - len(encoded)]))))).write(elem(len(encoded)..len(encoded.extend(each(encode_single_unchecked(elem(chunk), exp))))))) | spare_capacity_mut(patch_idx.reserve([sum(each(!is_same(decode_single(encode_single_unchecked(elem(chunk), exp), exp), elem(chunk)))) + 1]))})) & Lt(sum(each(!is_same(decode_single(index(encoded.extend(each(encode_single_unchecked(elem(chunk), exp))), elem(len(encoded)..len(encoded.extend(each(encode_single_unchecked(elem(chunk), exp)))))), exp), index(chunk, [elem(len(encoded)..len(encoded.extend(each(encode_single_unchecked(elem(chunk), exp))))) - len(encoded)])))), len(loop{seti(loop, sum(each(!is_same(decode_single(index(encoded.extend(each(encode_single_unchecked(elem(chunk), exp))), elem(len(encoded)..len(encoded.extend(each(encode_single_unchecked(elem(chunk), exp)))))), exp), index(chunk, [elem(len(encoded)..len(encoded.extend(each(encode_single_unchecked(elem(chunk), exp))))) - len(encoded)])))), index(loop, sum(each(!is_same(decode_single(index(encoded.extend(each(encode_single_unchecked(elem(chunk), exp))), elem(len(encoded)..len(encoded.extend(each(encode_single_unchecked(elem(chunk), exp)))))), exp), index(chunk, [elem(len(encoded)..len(encoded.extend(each(encode_single_unchecked(elem(chunk), exp))))) - len(encoded)]))))).write(index(chunk, [elem(len(encoded)..len(encoded.extend(each(encode_single_unchecked(elem(chunk), exp))))) - len(encoded)]))) | spare_capacity_mut(patch_values.reserve([sum(each(!is_same(decode_single(encode_single_unchecked(elem(chunk), exp), exp), elem(chunk)))) + 1]))}))
@ <vortex_alp::alp_rd::RDEncoder>::encode_generic args=self,array calls=push#1 under=all each=1 loops=1 voc=bit_width,bitpack_encode,to_bits n=4
push(bitand([-one() + shl(one(), self.right_bit_width)], to_bits(elem(maybe_null_slice(array)))))
push(elem(iter_mut(each(to_u16(shr(to_bits(elem(maybe_null_slice(array))), self.right_bit_width)))))) <- iposition(self.codes, Eq(elem(iter_mut(each(to_u16(shr(to_bits(elem(maybe_null_slice(array))), self.right_bit_width))))), elem(self.codes))) is None
push(pos(iter_mut(each(to_u16(shr(to_bits(elem(maybe_null_slice(array))), self.right_bit_width)))))) <- iposition(self.codes, Eq(elem(iter_mut(each(to_u16(shr(to_bits(elem(maybe_null_slice(array))), self.right_bit_width))))), elem(self.codes))) is None
push(to_u16(shr(to_bits(elem(maybe_null_slice(array))), self.right_bit_width)))
@ vortex_runend::compress::runend_encode_primitive args=elements loops=1
(Vec.new(), Vec.new()) <- Eq(0, len(elements))
(each(cur(1)).push(cur(1)), each(cur(index(elements, 0))).push(cur(index(elements, 0)))) <- !Eq(0, len(elements))
@ vortex_runend::compress::runend_encode_primitive args=elements calls=push#1 under=all each=1 loops=1 n=4
push(cur(1)) <- !Eq(0, len(elements))
push(cur(1)) <- !Eq(0, len(elements)) & !is_eq(nth(elem(elements), 1), cur(index(elements, 0)))
push(cur(index(elements, 0))) <- !Eq(0, len(elements))
push(cur(index(elements, 0))) <- !Eq(0, len(elements)) & !is_eq(nth(elem(elements), 1), cur(index(elements, 0)))
@ vortex_runend::compress::runend_encode_primitive args=elements calls=is_eq under=1 loops=1 n=1
is_eq(nth(elem(elements), 1), cur(index(elements, 0))) <- !Eq(0, len(elements))
@ vortex_runend_bool::compress::runend_bool_encode_slice args=elements calls=push#1 under=all each=1 n=5
push(elem(set_slices(elements)).0)
push(elem(set_slices(elements)).0) <- !Eq(0, elem(set_slices(elements)).0)
push(elem(set_slices(elements)).1)
@ vortex_fastlanes::bitpacking::compress::gather_patches args=parray,bit_width,exceptions calls=push#1 under=all each=1 ptype=I32 n=2
push(elem(maybe_null_slice(parray))) <- Lt(leading_zeros(elem(maybe_null_slice(parray))), [-bit_width + 8*byte_width(I32)]) & is_valid(parray, pos(parray))
push(pos(parray)) <- Lt(leading_zeros(elem(maybe_null_slice(parray))), [-bit_width + 8*byte_width(I32)]) & is_valid(parray, pos(parray))
@ vortex_fastlanes::bitpacking::compress::gather_patches args=parray,bit_width,exceptions calls=try_new ptype=I32 n=1
try_new(each(pos(parray)), PrimitiveArray.from_vec(each(elem(maybe_null_slice(parray))), AllValid), len(parray), Null)
@ <vortex_alp::alp_rd::RDEncoder>::encode_generic args=self,array voc=bitpack_encode_unchecked,from_vec,try_new
ALPRDArray.try_new(Primitive(PTYPE, nullability(dtype(bitpack_encode_unchecked(PrimitiveArray.from_vec(each(to_u16(shr(to_bits(elem(maybe_null_slice(array))), self.right_bit_width))).iter_mut(), validity(array)), as_u8({1 <- Eq(0, [len(self.codes) - 1]) | wrapping_add(1, ilog2([len(self.codes) - 1])) <- !Eq(0, [len(self.codes) - 1])}))))), bitpack_encode_unchecked(PrimitiveArray.from_vec(each(to_u16(shr(to_bits(elem(maybe_null_slice(array))), self.right_bit_width))).iter_mut(), validity(array)), as_u8({1 <- Eq(0, [len(self.codes) - 1]) | wrapping_add(1, ilog2([len(self.codes) - 1])) <- !Eq(0, [len(self.codes) - 1])})), self.codes, bitpack_encode_unchecked(PrimitiveArray.from_vec(each(bitand([-one() + shl(one(), self.right_bit_width)], to_bits(elem(maybe_null_slice(array))))), NonNullable), self.right_bit_width), self.right_bit_width, optfilter(SparseArray.try_new(bitpack_encode_unchecked(PrimitiveArray.from_vec(each(pos(iter_mut(each(to_u16(shr(to_bits(elem(maybe_null_slice(array))), self.right_bit_width)))))), NonNullable), as_u8({1 <- Eq(0, or(last(each(pos(iter_mut(each(to_u16(shr(to_bits(elem(maybe_null_slice(array))), self.right_bit_width))))))), 0)) | wrapping_add(1, ilog2(or(last(each(pos(iter_mut(each(to_u16(shr(to_bits(elem(maybe_null_slice(array))), self.right_bit_width))))))), 0))) <- !Eq(0, or(last(each(pos(iter_mut(each(to_u16(shr(to_bits(elem(maybe_null_slice(array))), self.right_bit_width))))))), 0))})), PrimitiveArray.from_vec(each(elem(iter_mut(each(to_u16(shr(to_bits(elem(maybe_null_slice(array))), self.right_bit_width)))))), AllValid), len(array), Null), !Eq(0, len(each(pos(iter_mut(each(to_u16(shr(to_bits(elem(maybe_null_slice(array))), self.right_bit_width))))))))))
@ <vortex_alp::alp_rd::RDEncoder>::encode_generic args=self,array calls=bitpack_encode_unchecked voc=bitpack_encode_unchecked,from_vec n=3
bitpack_encode_unchecked(PrimitiveArray.from_vec(each(bitand([-one() + shl(one(), self.right_bit_width)], to_bits(elem(maybe_null_slice(array))))), NonNullable), self.right_bit_width)
bitpack_encode_unchecked(PrimitiveArray.from_vec(each(pos(iter_mut(each(to_u16(shr(to_bits(elem(maybe_null_slice(array))), self.right_bit_width)))))), NonNullable), as_u8({1 <- Eq(0, or(last(each(pos(iter_mut(each(to_u16(shr(to_bits(elem(maybe_null_slice(array))), self.right_bit_width))))))), 0)) | wrapping_add(1, ilog2(or(last(each(pos(iter_mut(each(to_u16(shr(to_bits(elem(maybe_null_slice(array))), self.right_bit_width))))))), 0))) <- !Eq(0, or(last(each(pos(iter_mut(each(to_u16(shr(to_bits(elem(maybe_null_slice(array))), self.right_bit_width))))))), 0))}))
bitpack_encode_unchecked(PrimitiveArray.from_vec(each(to_u16(shr(to_bits(elem(maybe_null_slice(array))), self.right_bit_width))).iter_mut(), validity(array)), as_u8({1 <- Eq(0, [len(self.codes) - 1]) | wrapping_add(1, ilog2([len(self.codes) - 1])) <- !Eq(0, [len(self.codes) - 1])}))
@ vortex_dict::compress::dict_encode_typed_varbin args=dtype,values calls=insert_with_hasher#2 guards=0 loops=0 n=1
insert_with_hasher([len(each(as_u32(len(L.extend_from_slice(elem(values)))))) - 1])
@ vortex_dict::compress::dict_encode_typed_varbin args=dtype,values calls=from_hash loops=0 guards=0 n=1
from_hash(raw_entry_mut(L), hash_one(default(foldhash::seed::fast::RandomState), elem(values)), fn(Eq(elem(values), index(L, index(each(as_u32(len(L.extend_from_slice(elem(values))))), $0)..index(each(as_u32(len(L.extend_from_slice(elem(values))))), [$0 + 1])))))
@ vortex_dict::compress::dict_encode_typed_varbin args=dtype,values calls=hash_one loops=0 guards=0 n=2
hash_one(default(foldhash::seed::fast::RandomState), elem(values))
hash_one(default(foldhash::seed::fast::RandomState), index(L.extend_from_slice(elem(values)), index(each(as_u32(len(L.extend_from_slice(elem(values))))).push(as_u32(len(L.extend_from_slice(elem(values))))), $0)..index(each(as_u32(len(L.extend_from_slice(elem(values))))).push(as_u32(len(L.extend_from_slice(elem(values))))), [$0 + 1])))
@ vortex_dict::compress::dict_encode_typed_varbin args=dtype,values calls=extend loops=0 guards=1 n=1
extend(Vec.with_capacity().push(False), from_elem(True, [len(each(as_u32(len(L.extend_from_slice(elem(values)))))) - 2]))
@ vortex_dict::compress::dict_encode_typed_varbin args=dtype,values calls=push#1 under=1 loops=0 voc=from_hash,hash_one n=6
push(0)
push(False)
push(as_u32(len(L.extend_from_slice(elem(values)))))
push({[len(each(as_u32(len(L.extend_from_slice(elem(values)))))) - 1] <- RawEntryBuilderMut.from_hash(raw_entry_mut(L), hash_one(default(foldhash::seed::fast::RandomState), elem(values)), fn(Eq(elem(values), index(L, index(each(as_u32(len(L.extend_from_slice(elem(values))))), $0)..index(each(as_u32(len(L.extend_from_slice(elem(values))))), [$0 + 1]))))) is Vacant | into_key(RawEntryBuilderMut.from_hash(raw_entry_mut(L), hash_one(default(foldhash::seed::fast::RandomState), elem(values)), fn(Eq(elem(values), index(L, index(each(as_u32(len(L.extend_from_slice(elem(values))))), $0)..index(each(as_u32(len(L.extend_from_slice(elem(values))))), [$0 + 1])))))@Occupied.0) <- RawEntryBuilderMut.from_hash(raw_entry_mut(L), hash_one(default(foldhash::seed::fast::RandomState), elem(values)), fn(Eq(elem(values), index(L, index(each(as_u32(len(L.extend_from_slice(elem(values))))), $0)..index(each(as_u32(len(L.extend_from_slice(elem(values))))), [$0 + 1]))))) is Occupied})
'''
def run(c):
    spec.run_tables(c, (('compressor', COMP), ('guard', CAN), ('context', CTX), ('tree', TREE), ('encoder', ENC), ('decoder', spec.borrow('c11_canonical', 'DECODE', r'^@ <?vortex_')), ('decoder', spec.borrow('c11_canonical', 'CANON', r'^@ <vortex_'))), 'must keep the values, nulls and type of the array', r'vortex_sampling_compressor::compressors::.*EncodingCompressor>::compress$', ('compressor', 14))
