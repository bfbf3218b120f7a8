from lib import *
import spec
ID = 'C16'
TITLE = 'Vortex files can be read back'
RULE = 'the normal form of every step of the file writer (what it returns, leaves in its state, in which order it writes) and of the footer and layout-tree readers is compared with the form that denotes the file format'
WRITE = r'''
@ <vortex_serde::layouts::write::writer::LayoutWriter<W>>::new args=self
LayoutWriter(MessageWriter(self, 0, 64, Vec.new()), 0, None, Vec.new())
@ <vortex_serde::layouts::write::writer::LayoutWriter<W>>::write_array_columns args=self,x flat=1
or(await(write_array_columns_stream(self, array_stream(TryFrom.try_from(x)))), await(write_array_columns_stream(self, into_array_stream(x))))
@ <vortex_serde::layouts::write::writer::LayoutWriter<W>>::write_column_chunks args=self,s,i out=1 voc=write_batch
.msgs = loop{loop | self.msgs}.write_batch(await(try_next(loop{loop.try_next() | s})))
.msgs = loop{loop.write_batch(await(try_next(loop{loop.try_next() | s}))) | self.msgs}
.column_chunks = self.column_chunks
.column_chunks = self.column_chunks.get_mut(i) <- get_mut(self.column_chunks, i) is Some
.column_chunks = self.column_chunks.get_mut(i).push(BatchOffsets(each([len(await(try_next(loop{loop.try_next() | s}))) + loop{0 | last(index(self.column_chunks, i).row_offsets) | loop}]), [loop{[tell(self.msgs)] | each(tell(loop{loop | self.msgs}.write_batch(await(try_next(loop{loop.try_next() | s})))))}])) <- get_mut(self.column_chunks, i) is None
@ <vortex_serde::layouts::write::writer::LayoutWriter<W>>::write_column_chunks args=self,s,i seq=tell|write_batch|push#1
push(0) ; push(BatchOffsets(each([len(await(try_next(s))) + loop{0 | last(index(self.column_chunks, i).row_offsets) | loop}]), [loop{[tell(self.msgs)] | each(tell(self.msgs))}]))
push(0) ; push([len(await(try_next(s))) + loop{0 | last(index(self.column_chunks, i).row_offsets) | loop}])
push(0) ; push(loop{[tell(self.msgs)] | each(tell(self.msgs))})
push([len(await(try_next(s))) + loop{0 | last(index(self.column_chunks, i).row_offsets) | loop}]) ; write_batch(await(try_next(s)))
tell() ; push(0)
tell() ; push(tell(self.msgs))
write_batch(await(try_next(s))) ; tell()
@ <vortex_serde::layouts::write::writer::LayoutWriter<W>>::write_metadata_arrays args=self flat=1 voc=tell,write_batch,write_dtype,MessageWriter.write_message,write_all
Layout(LayoutId(3), None, each(Layout(LayoutId(2), None, flat(elem({from_elem(BatchOffsets([0], Vec.new()), len(dtype(self)@Struct.0.dtypes)) <- Eq(0, len(self.column_chunks)) & dtype(self) is Some & dtype(self) is Struct | self.column_chunks <- !Eq(0, len(self.column_chunks)) | self.column_chunks <- dtype(self) is Binary|Bool|Extension|List|None|Null|Primitive|Utf8}).batch_byte_offsets, each(flat(ByteRange(elem(elem(elem({from_elem(BatchOffsets([0], Vec.new()), len(dtype(self)@Struct.0.dtypes)) <- Eq(0, len(self.column_chunks)) & dtype(self) is Some & dtype(self) is Struct | self.column_chunks <- !Eq(0, len(self.column_chunks)) | self.column_chunks <- dtype(self) is Binary|Bool|Extension|List|None|Null|Primitive|Utf8}).batch_byte_offsets)), nth(elem(elem(elem({from_elem(BatchOffsets([0], Vec.new()), len(dtype(self)@Struct.0.dtypes)) <- Eq(0, len(self.column_chunks)) & dtype(self) is Some & dtype(self) is Struct | self.column_chunks <- !Eq(0, len(self.column_chunks)) | self.column_chunks <- dtype(self) is Binary|Bool|Extension|List|None|Null|Primitive|Utf8}).batch_byte_offsets)), 1))))).push_front(Layout(LayoutId(4), [ByteRange(tell(self.msgs), tell(self.msgs))], [flat(ByteRange(tell(self.msgs), tell(self.msgs)))], None)), copy_from_slice([1]))), None)
@ <vortex_serde::layouts::write::writer::LayoutWriter<W>>::write_metadata_arrays args=self seq=tell|write_batch|write_dtype
tell(self.msgs) ; write_batch(self.msgs, StructArray.try_new(['row_offset'], [elem({from_elem(BatchOffsets([0], Vec.new()), len(dtype(self)@Struct.0.dtypes)) <- Eq(0, len(self.column_chunks)) & dtype(self) is Some & dtype(self) is Struct | self.column_chunks <- !Eq(0, len(self.column_chunks)) | self.column_chunks <- dtype(self) is Binary|Bool|Extension|List|None|Null|Primitive|Utf8}).row_offsets.truncate([len(elem({from_elem(BatchOffsets([0], Vec.new()), len(dtype(self)@Struct.0.dtypes)) <- Eq(0, len(self.column_chunks)) & dtype(self) is Some & dtype(self) is Struct | self.column_chunks <- !Eq(0, len(self.column_chunks)) | self.column_chunks <- dtype(self) is Binary|Bool|Extension|List|None|Null|Primitive|Utf8}).row_offsets) - 1])], [len(elem({from_elem(BatchOffsets([0], Vec.new()), len(dtype(self)@Struct.0.dtypes)) <- Eq(0, len(self.column_chunks)) & dtype(self) is Some & dtype(self) is Struct | self.column_chunks <- !Eq(0, len(self.column_chunks)) | self.column_chunks <- dtype(self) is Binary|Bool|Extension|List|None|Null|Primitive|Utf8}).row_offsets) - 1], NonNullable))
tell(self.msgs) ; write_dtype(self.msgs, dtype(StructArray.try_new(['row_offset'], [elem({from_elem(BatchOffsets([0], Vec.new()), len(dtype(self)@Struct.0.dtypes)) <- Eq(0, len(self.column_chunks)) & dtype(self) is Some & dtype(self) is Struct | self.column_chunks <- !Eq(0, len(self.column_chunks)) | self.column_chunks <- dtype(self) is Binary|Bool|Extension|List|None|Null|Primitive|Utf8}).row_offsets.truncate([len(elem({from_elem(BatchOffsets([0], Vec.new()), len(dtype(self)@Struct.0.dtypes)) <- Eq(0, len(self.column_chunks)) & dtype(self) is Some & dtype(self) is Struct | self.column_chunks <- !Eq(0, len(self.column_chunks)) | self.column_chunks <- dtype(self) is Binary|Bool|Extension|List|None|Null|Primitive|Utf8}).row_offsets) - 1])], [len(elem({from_elem(BatchOffsets([0], Vec.new()), len(dtype(self)@Struct.0.dtypes)) <- Eq(0, len(self.column_chunks)) & dtype(self) is Some & dtype(self) is Struct | self.column_chunks <- !Eq(0, len(self.column_chunks)) | self.column_chunks <- dtype(self) is Binary|Bool|Extension|List|None|Null|Primitive|Utf8}).row_offsets) - 1], NonNullable)))
write_batch(self.msgs, StructArray.try_new(['row_offset'], [elem({from_elem(BatchOffsets([0], Vec.new()), len(dtype(self)@Struct.0.dtypes)) <- Eq(0, len(self.column_chunks)) & dtype(self) is Some & dtype(self) is Struct | self.column_chunks <- !Eq(0, len(self.column_chunks)) | self.column_chunks <- dtype(self) is Binary|Bool|Extension|List|None|Null|Primitive|Utf8}).row_offsets.truncate([len(elem({from_elem(BatchOffsets([0], Vec.new()), len(dtype(self)@Struct.0.dtypes)) <- Eq(0, len(self.column_chunks)) & dtype(self) is Some & dtype(self) is Struct | self.column_chunks <- !Eq(0, len(self.column_chunks)) | self.column_chunks <- dtype(self) is Binary|Bool|Extension|List|None|Null|Primitive|Utf8}).row_offsets) - 1])], [len(elem({from_elem(BatchOffsets([0], Vec.new()), len(dtype(self)@Struct.0.dtypes)) <- Eq(0, len(self.column_chunks)) & dtype(self) is Some & dtype(self) is Struct | self.column_chunks <- !Eq(0, len(self.column_chunks)) | self.column_chunks <- dtype(self) is Binary|Bool|Extension|List|None|Null|Primitive|Utf8}).row_offsets) - 1], NonNullable)) ; tell(self.msgs)
write_dtype(self.msgs, dtype(StructArray.try_new(['row_offset'], [elem({from_elem(BatchOffsets([0], Vec.new()), len(dtype(self)@Struct.0.dtypes)) <- Eq(0, len(self.column_chunks)) & dtype(self) is Some & dtype(self) is Struct | self.column_chunks <- !Eq(0, len(self.column_chunks)) | self.column_chunks <- dtype(self) is Binary|Bool|Extension|List|None|Null|Primitive|Utf8}).row_offsets.truncate([len(elem({from_elem(BatchOffsets([0], Vec.new()), len(dtype(self)@Struct.0.dtypes)) <- Eq(0, len(self.column_chunks)) & dtype(self) is Some & dtype(self) is Struct | self.column_chunks <- !Eq(0, len(self.column_chunks)) | self.column_chunks <- dtype(self) is Binary|Bool|Extension|List|None|Null|Primitive|Utf8}).row_offsets) - 1])], [len(elem({from_elem(BatchOffsets([0], Vec.new()), len(dtype(self)@Struct.0.dtypes)) <- Eq(0, len(self.column_chunks)) & dtype(self) is Some & dtype(self) is Struct | self.column_chunks <- !Eq(0, len(self.column_chunks)) | self.column_chunks <- dtype(self) is Binary|Bool|Extension|List|None|Null|Primitive|Utf8}).row_offsets) - 1], NonNullable))) ; tell(self.msgs)
@ <vortex_serde::layouts::write::writer::LayoutWriter<W>>::write_footer args=self,x seq=tell|write_dtype|write_message
tell(self.msgs) ; write_dtype(self.msgs, dtype(self))
tell(self.msgs) ; write_message(self.msgs, x)
write_dtype(self.msgs, dtype(self)) ; tell(self.msgs)
@ <vortex_serde::layouts::write::writer::LayoutWriter<W>>::write_footer args=self,x voc=tell,write_dtype,write_message flat=1 errs=1
Postscript(tell(self.msgs), tell(self.msgs))
@ <vortex_serde::layouts::write::writer::LayoutWriter<W>>::finalize args=self voc=write_metadata_arrays,write_footer,write_fb_raw,MessageWriter.into_inner flat=1
await(write_fb_raw(self.write_metadata_arrays().write_footer(Footer(await(write_metadata_arrays(self)), self.write_metadata_arrays().row_count)).msgs, await(write_footer(self.write_metadata_arrays(), Footer(await(write_metadata_arrays(self)), self.write_metadata_arrays().row_count)))))
@ <vortex_serde::layouts::write::writer::LayoutWriter<W>>::finalize args=self voc=write_metadata_arrays,write_footer,write_fb_raw,MessageWriter.into_inner,write_all seq=write_metadata_arrays|write_footer|write_fb_raw|write_all
write_fb_raw(self.write_metadata_arrays().write_footer(Footer(await(write_metadata_arrays(self)), self.write_metadata_arrays().row_count)).msgs, await(write_footer(self.write_metadata_arrays(), Footer(await(write_metadata_arrays(self)), self.write_metadata_arrays().row_count)))) ; write_all(await(write_fb_raw(self.write_metadata_arrays().write_footer(Footer(await(write_metadata_arrays(self)), self.write_metadata_arrays().row_count)).msgs, await(write_footer(self.write_metadata_arrays(), Footer(await(write_metadata_arrays(self)), self.write_metadata_arrays().row_count))))), seti(seti(rep(0, 8), 0..2, index(rep(0, 8), 0..[2]).copy_from_slice(to_le_bytes(1))), 4..8, index(seti(rep(0, 8), 0..2, index(rep(0, 8), 0..[2]).copy_from_slice(to_le_bytes(1))), [4]..[8]).copy_from_slice(('#', ('tup', (86, 82, 84, 88))))))
write_footer(self.write_metadata_arrays(), Footer(await(write_metadata_arrays(self)), self.write_metadata_arrays().row_count)) ; write_fb_raw(self.write_metadata_arrays().write_footer(Footer(await(write_metadata_arrays(self)), self.write_metadata_arrays().row_count)).msgs, await(write_footer(self.write_metadata_arrays(), Footer(await(write_metadata_arrays(self)), self.write_metadata_arrays().row_count))))
write_metadata_arrays(self) ; write_footer(self.write_metadata_arrays(), Footer(await(write_metadata_arrays(self)), self.write_metadata_arrays().row_count))
@ vortex_serde::layouts::write::writer::write_fb_raw args=w,x seq=write_flatbuffer|finish_minimal|write_all
finish_minimal(FlatBufferBuilder.new(), write_flatbuffer(x, FlatBufferBuilder.new())) ; write_all(w, Slice(collapse(FlatBufferBuilder.new()).0, collapse(FlatBufferBuilder.new()).1, len(collapse(FlatBufferBuilder.new()).0)))
write_flatbuffer(x, FlatBufferBuilder.new()) ; finish_minimal(FlatBufferBuilder.new(), write_flatbuffer(x, FlatBufferBuilder.new()))
@ vortex_serde::layouts::write::writer::write_fb_raw args=w,x flat=1
w
@ <vortex_serde::layouts::write::writer::BatchOffsets>::new
BatchOffsets(row_offsets, batch_byte_offsets)
@ <vortex_serde::layouts::write::layouts::Layout>::chunked
Layout(LayoutId(2), None, children, copy_from_slice([{0 <- !has_metadata | 1 <- has_metadata}]))
@ <vortex_serde::layouts::write::layouts::Layout>::column
Layout(LayoutId(3), None, children, None)
@ <vortex_serde::layouts::write::layouts::Layout>::flat
Layout(LayoutId(1), [buffer], None, None)
@ <vortex_serde::layouts::write::layouts::Layout>::inlined_schema
Layout(LayoutId(4), [dtype_buffer], children, None)
@ <vortex_serde::layouts::write::layouts::Layout as vortex_flatbuffers::WriteFlatBuffer>::write_flatbuffer args=self,fbb flat=1
create(fbb, LayoutArgs(self.id.0, create_vector(fbb, each(Buffer.new(elem(self.buffers).begin, elem(self.buffers).end))), create_vector(fbb, each(write_flatbuffer(elem(self.children), fbb))), create_vector(fbb, self.metadata)))
@ <vortex_serde::layouts::write::footer::Footer>::new
Footer(layout, row_count)
@ <vortex_serde::layouts::write::footer::Postscript>::new
Postscript(schema_offset, footer_offset)
@ <vortex_serde::layouts::write::footer::Footer as vortex_flatbuffers::WriteFlatBuffer>::write_flatbuffer args=self,fbb flat=1
create(fbb, FooterArgs(write_flatbuffer(self.layout, fbb), self.row_count))
@ <vortex_serde::layouts::write::footer::Postscript as vortex_flatbuffers::WriteFlatBuffer>::write_flatbuffer args=self,fbb flat=1
create(fbb, PostscriptArgs(self.schema_offset, self.footer_offset))
@ <vortex_serde::layouts::write::writer::LayoutWriter<W>>::write_array_columns_stream args=self,x voc=write_column_chunks,array_stream,into_array_stream,StructArray.children calls=write_column_chunks#1,2 loops=0 n=2
write_column_chunks(array_stream(TryFrom.try_from(elem(L).1)), elem(L).0)
write_column_chunks(into_array_stream(elem(L).1), elem(L).0)
@ <vortex_serde::layouts::write::writer::LayoutWriter<W>>::write_column_chunks args=self,s,i voc=tell,write_batch,write_dtype calls=push under=all loops=0 n=5
push(Vec.new(), 0) <- !Lt(i, len(self.column_chunks))
push(each([L + len(await(try_next(L)))]), [L + len(await(try_next(L)))])
push(get_mut(self.column_chunks, i).batch_byte_offsets, loop{[tell(self.msgs)] | each(tell(L.write_batch(await(try_next(L)))))}) <- get_mut(self.column_chunks, i) is Some
push(loop{[tell(self.msgs)] | each(tell(L.write_batch(await(try_next(L)))))}, tell(L.write_batch(await(try_next(L)))))
push(self.column_chunks.get_mut(i), BatchOffsets(each([L + len(await(try_next(L)))]), [loop{[tell(self.msgs)] | each(tell(L.write_batch(await(try_next(L)))))}])) <- get_mut(self.column_chunks, i) is None
@ <vortex_serde::layouts::write::writer::LayoutWriter<W>>::write_column_chunks args=self,s,i voc=tell,write_batch,write_dtype calls=extend under=all loops=0 n=1
extend(get_mut(self.column_chunks, i).row_offsets, each([L + len(await(try_next(L)))])) <- get_mut(self.column_chunks, i) is Some
@ <vortex_serde::layouts::write::writer::LayoutWriter<W>>::write_column_chunks args=self,s,i voc=tell,write_batch,write_dtype calls=write_batch under=all loops=0 n=1
write_batch(L, await(try_next(L)))
@ <vortex_serde::layouts::write::writer::LayoutWriter<W>>::write_metadata_arrays args=self voc=tell,write_batch,write_dtype,StructArray.try_new calls=from_elem under=all n=1
from_elem(BatchOffsets([0], Vec.new()), len(dtype(self)@Struct.0.dtypes)) <- Eq(0, len(self.column_chunks)) & dtype(self) is Some & dtype(self) is Struct
@ <vortex_serde::layouts::write::writer::LayoutWriter<W>>::write_metadata_arrays args=self voc=tell,write_batch,write_dtype,StructArray.try_new calls=try_new loops=0 n=1
try_new(['row_offset'], [elem({from_elem(BatchOffsets([0], Vec.new()), len(dtype(self)@Struct.0.dtypes)) <- Eq(0, len(self.column_chunks)) & dtype(self) is Some & dtype(self) is Struct | self.column_chunks <- !Eq(0, len(self.column_chunks)) | self.column_chunks <- dtype(self) is Binary|Bool|Extension|List|None|Null|Primitive|Utf8}).row_offsets.truncate([len(elem({from_elem(BatchOffsets([0], Vec.new()), len(dtype(self)@Struct.0.dtypes)) <- Eq(0, len(self.column_chunks)) & dtype(self) is Some & dtype(self) is Struct | self.column_chunks <- !Eq(0, len(self.column_chunks)) | self.column_chunks <- dtype(self) is Binary|Bool|Extension|List|None|Null|Primitive|Utf8}).row_offsets) - 1])], [len(elem({from_elem(BatchOffsets([0], Vec.new()), len(dtype(self)@Struct.0.dtypes)) <- Eq(0, len(self.column_chunks)) & dtype(self) is Some & dtype(self) is Struct | self.column_chunks <- !Eq(0, len(self.column_chunks)) | self.column_chunks <- dtype(self) is Binary|Bool|Extension|List|None|Null|Primitive|Utf8}).row_offsets) - 1], NonNullable)
@ <vortex_serde::layouts::write::writer::LayoutWriter<W>>::write_metadata_arrays args=self voc=tell,write_batch,write_dtype,StructArray.try_new,inlined_schema,ByteRange.new calls=inlined_schema loops=0 n=1
inlined_schema([Layout(LayoutId(1), [ByteRange.new(tell(L.write_dtype(dtype(StructArray.try_new(['row_offset'], [elem({from_elem(BatchOffsets([0], Vec.new()), len(dtype(self)@Struct.0.dtypes)) <- Eq(0, len(self.column_chunks)) & dtype(self) is Some & dtype(self) is Struct | self.column_chunks <- !Eq(0, len(self.column_chunks)) | self.column_chunks <- dtype(self) is Binary|Bool|Extension|List|None|Null|Primitive|Utf8}).row_offsets.truncate([len(elem({from_elem(BatchOffsets([0], Vec.new()), len(dtype(self)@Struct.0.dtypes)) <- Eq(0, len(self.column_chunks)) & dtype(self) is Some & dtype(self) is Struct | self.column_chunks <- !Eq(0, len(self.column_chunks)) | self.column_chunks <- dtype(self) is Binary|Bool|Extension|List|None|Null|Primitive|Utf8}).row_offsets) - 1])], [len(elem({from_elem(BatchOffsets([0], Vec.new()), len(dtype(self)@Struct.0.dtypes)) <- Eq(0, len(self.column_chunks)) & dtype(self) is Some & dtype(self) is Struct | self.column_chunks <- !Eq(0, len(self.column_chunks)) | self.column_chunks <- dtype(self) is Binary|Bool|Extension|List|None|Null|Primitive|Utf8}).row_offsets) - 1], NonNullable)))), tell(L.write_dtype(dtype(StructArray.try_new(['row_offset'], [elem({from_elem(BatchOffsets([0], Vec.new()), len(dtype(self)@Struct.0.dtypes)) <- Eq(0, len(self.column_chunks)) & dtype(self) is Some & dtype(self) is Struct | self.column_chunks <- !Eq(0, len(self.column_chunks)) | self.column_chunks <- dtype(self) is Binary|Bool|Extension|List|None|Null|Primitive|Utf8}).row_offsets.truncate([len(elem({from_elem(BatchOffsets([0], Vec.new()), len(dtype(self)@Struct.0.dtypes)) <- Eq(0, len(self.column_chunks)) & dtype(self) is Some & dtype(self) is Struct | self.column_chunks <- !Eq(0, len(self.column_chunks)) | self.column_chunks <- dtype(self) is Binary|Bool|Extension|List|None|Null|Primitive|Utf8}).row_offsets) - 1])], [len(elem({from_elem(BatchOffsets([0], Vec.new()), len(dtype(self)@Struct.0.dtypes)) <- Eq(0, len(self.column_chunks)) & dtype(self) is Some & dtype(self) is Struct | self.column_chunks <- !Eq(0, len(self.column_chunks)) | self.column_chunks <- dtype(self) is Binary|Bool|Extension|List|None|Null|Primitive|Utf8}).row_offsets) - 1], NonNullable))).write_batch(StructArray.try_new(['row_offset'], [elem({from_elem(BatchOffsets([0], Vec.new()), len(dtype(self)@Struct.0.dtypes)) <- Eq(0, len(self.column_chunks)) & dtype(self) is Some & dtype(self) is Struct | self.column_chunks <- !Eq(0, len(self.column_chunks)) | self.column_chunks <- dtype(self) is Binary|Bool|Extension|List|None|Null|Primitive|Utf8}).row_offsets.truncate([len(elem({from_elem(BatchOffsets([0], Vec.new()), len(dtype(self)@Struct.0.dtypes)) <- Eq(0, len(self.column_chunks)) & dtype(self) is Some & dtype(self) is Struct | self.column_chunks <- !Eq(0, len(self.column_chunks)) | self.column_chunks <- dtype(self) is Binary|Bool|Extension|List|None|Null|Primitive|Utf8}).row_offsets) - 1])], [len(elem({from_elem(BatchOffsets([0], Vec.new()), len(dtype(self)@Struct.0.dtypes)) <- Eq(0, len(self.column_chunks)) & dtype(self) is Some & dtype(self) is Struct | self.column_chunks <- !Eq(0, len(self.column_chunks)) | self.column_chunks <- dtype(self) is Binary|Bool|Extension|List|None|Null|Primitive|Utf8}).row_offsets) - 1], NonNullable))))], None, None)], ByteRange.new(tell(L), tell(L.write_dtype(dtype(StructArray.try_new(['row_offset'], [elem({from_elem(BatchOffsets([0], Vec.new()), len(dtype(self)@Struct.0.dtypes)) <- Eq(0, len(self.column_chunks)) & dtype(self) is Some & dtype(self) is Struct | self.column_chunks <- !Eq(0, len(self.column_chunks)) | self.column_chunks <- dtype(self) is Binary|Bool|Extension|List|None|Null|Primitive|Utf8}).row_offsets.truncate([len(elem({from_elem(BatchOffsets([0], Vec.new()), len(dtype(self)@Struct.0.dtypes)) <- Eq(0, len(self.column_chunks)) & dtype(self) is Some & dtype(self) is Struct | self.column_chunks <- !Eq(0, len(self.column_chunks)) | self.column_chunks <- dtype(self) is Binary|Bool|Extension|List|None|Null|Primitive|Utf8}).row_offsets) - 1])], [len(elem({from_elem(BatchOffsets([0], Vec.new()), len(dtype(self)@Struct.0.dtypes)) <- Eq(0, len(self.column_chunks)) & dtype(self) is Some & dtype(self) is Struct | self.column_chunks <- !Eq(0, len(self.column_chunks)) | self.column_chunks <- dtype(self) is Binary|Bool|Extension|List|None|Null|Primitive|Utf8}).row_offsets) - 1], NonNullable))))))
@ <vortex_serde::layouts::write::writer::LayoutWriter<W>>::write_metadata_arrays args=self voc=tell,write_batch,write_dtype,StructArray.try_new,chunked calls=chunked#1 loops=0 n=1
chunked(True)
'''
GUARDS = r'''
@ <vortex_serde::layouts::read::footer::LayoutDescriptorReader>::read_footer args=self,x,y errs=1
LayoutDescriptor(get(root(index(await(read_at_into(x, [-min(8388608, y) + y], BytesMut.with_capacity().set_len(min(8388608, y)))), [min(8388608, y) - 40]..[min(8388608, y) - 8]))._tab, 4, 0), get(root(index(await(read_at_into(x, [-min(8388608, y) + y], BytesMut.with_capacity().set_len(min(8388608, y)))), [min(8388608, y) - 40]..[min(8388608, y) - 8]))._tab, 6, 0), freeze({await(read_at_into(x, [-min(8388608, y) + y], BytesMut.with_capacity().set_len(min(8388608, y)))) <- !Lt(get(root(index(await(read_at_into(x, [-min(8388608, y) + y], BytesMut.with_capacity().set_len(min(8388608, y)))), [min(8388608, y) - 40]..[min(8388608, y) - 8]))._tab, 4, 0), [-min(8388608, y) + y]) | await(read_at_into(x, get(root(index(await(read_at_into(x, [-min(8388608, y) + y], BytesMut.with_capacity().set_len(min(8388608, y)))), [min(8388608, y) - 40]..[min(8388608, y) - 8]))._tab, 4, 0), BytesMut.with_capacity().set_len([-get(root(index(await(read_at_into(x, [-min(8388608, y) + y], BytesMut.with_capacity().set_len(min(8388608, y)))), [min(8388608, y) - 40]..[min(8388608, y) - 8]))._tab, 4, 0) + y]))) <- Lt(get(root(index(await(read_at_into(x, [-min(8388608, y) + y], BytesMut.with_capacity().set_len(min(8388608, y)))), [min(8388608, y) - 40]..[min(8388608, y) - 8]))._tab, 4, 0), [-min(8388608, y) + y])}), {[-min(8388608, y) + y] <- !Lt(get(root(index(await(read_at_into(x, [-min(8388608, y) + y], BytesMut.with_capacity().set_len(min(8388608, y)))), [min(8388608, y) - 40]..[min(8388608, y) - 8]))._tab, 4, 0), [-min(8388608, y) + y]) | get(root(index(await(read_at_into(x, [-min(8388608, y) + y], BytesMut.with_capacity().set_len(min(8388608, y)))), [min(8388608, y) - 40]..[min(8388608, y) - 8]))._tab, 4, 0) <- Lt(get(root(index(await(read_at_into(x, [-min(8388608, y) + y], BytesMut.with_capacity().set_len(min(8388608, y)))), [min(8388608, y) - 40]..[min(8388608, y) - 8]))._tab, 4, 0), [-min(8388608, y) + y])}, self.layout_serde) <- !Lt([y - 40], get(root(index(await(read_at_into(x, [-min(8388608, y) + y], BytesMut.with_capacity().set_len(min(8388608, y)))), [min(8388608, y) - 40]..[min(8388608, y) - 8]))._tab, 6, 0)) & !Lt(get(root(index(await(read_at_into(x, [-min(8388608, y) + y], BytesMut.with_capacity().set_len(min(8388608, y)))), [min(8388608, y) - 40]..[min(8388608, y) - 8]))._tab, 6, 0), get(root(index(await(read_at_into(x, [-min(8388608, y) + y], BytesMut.with_capacity().set_len(min(8388608, y)))), [min(8388608, y) - 40]..[min(8388608, y) - 8]))._tab, 4, 0)) & Eq(('#', ('tup', (86, 82, 84, 88))), index(await(read_at_into(x, [-min(8388608, y) + y], BytesMut.with_capacity().set_len(min(8388608, y)))), RangeFrom([-len(('#', ('tup', (86, 82, 84, 88)))) + min(8388608, y)]))) & Eq(1, u16.from_le_bytes(TryFrom.try_from(index(await(read_at_into(x, [-min(8388608, y) + y], BytesMut.with_capacity().set_len(min(8388608, y)))), [min(8388608, y) - 8]..[min(8388608, y) - 6])))) & Lt(39, y)
@ <vortex_serde::layouts::write::writer::LayoutWriter<W>>::write_array_columns_stream args=self,x voc=write_column_chunks,array_stream,into_array_stream,StructArray.children,dtype errs=1 loops=1
cur(self) <- await(try_next(cur(x))) is None
@ <vortex_serde::layouts::write::writer::LayoutWriter<W>>::write_footer args=self,x voc=tell,write_dtype,write_message errs=1
Postscript(tell(self.msgs), tell(self.msgs.write_dtype(dtype(self))))
@ <vortex_serde::layouts::write::writer::LayoutWriter<W>>::write_column_chunks args=self,s,i voc=tell,write_batch,write_dtype calls=push under=all loops=1 n=5
push(Vec.new(), 0) <- !Lt(i, len(self.column_chunks))
push(each([L + len(await(try_next(cur(s))))]), [L + len(await(try_next(cur(s))))])
push(get_mut(self.column_chunks, i).batch_byte_offsets, loop{[tell(self.msgs)] | each(tell(cur(self.msgs).write_batch(await(try_next(cur(s))))))}) <- get_mut(self.column_chunks, i) is Some
push(loop{[tell(self.msgs)] | each(tell(cur(self.msgs).write_batch(await(try_next(cur(s))))))}, tell(cur(self.msgs).write_batch(await(try_next(cur(s))))))
push(self.column_chunks.get_mut(i), BatchOffsets(each([L + len(await(try_next(cur(s))))]), [loop{[tell(self.msgs)] | each(tell(cur(self.msgs).write_batch(await(try_next(cur(s))))))}])) <- get_mut(self.column_chunks, i) is None
@ <vortex_serde::layouts::write::writer::LayoutWriter<W>>::write_column_chunks args=self,s,i voc=write_batch steps=self
.msgs = cur(self.msgs).write_batch(await(try_next(cur(s))))
@ <vortex_serde::layouts::write::writer::LayoutWriter<W>>::write_metadata_arrays args=self voc=tell,write_batch,write_dtype errs=1
Layout(LayoutId(3), None, each(Layout(LayoutId(2), None, flat(elem({from_elem(BatchOffsets([0], Vec.new()), len(dtype(self)@Struct.0.dtypes)) <- Eq(0, len(self.column_chunks)) & dtype(self) is Some & dtype(self) is Struct | self.column_chunks <- !Eq(0, len(self.column_chunks)) | self.column_chunks <- dtype(self) is Binary|Bool|Extension|List|None|Null|Primitive|Utf8}).batch_byte_offsets, each(flat(ByteRange(elem(elem(elem({from_elem(BatchOffsets([0], Vec.new()), len(dtype(self)@Struct.0.dtypes)) <- Eq(0, len(self.column_chunks)) & dtype(self) is Some & dtype(self) is Struct | self.column_chunks <- !Eq(0, len(self.column_chunks)) | self.column_chunks <- dtype(self) is Binary|Bool|Extension|List|None|Null|Primitive|Utf8}).batch_byte_offsets)), nth(elem(elem(elem({from_elem(BatchOffsets([0], Vec.new()), len(dtype(self)@Struct.0.dtypes)) <- Eq(0, len(self.column_chunks)) & dtype(self) is Some & dtype(self) is Struct | self.column_chunks <- !Eq(0, len(self.column_chunks)) | self.column_chunks <- dtype(self) is Binary|Bool|Extension|List|None|Null|Primitive|Utf8}).batch_byte_offsets)), 1))))).push_front(Layout(LayoutId(4), [ByteRange(tell(loop{loop.write_dtype(dtype(StructArray.try_new(['row_offset'], [elem({from_elem(BatchOffsets([0], Vec.new()), len(dtype(self)@Struct.0.dtypes)) <- Eq(0, len(self.column_chunks)) & dtype(self) is Some & dtype(self) is Struct | self.column_chunks <- !Eq(0, len(self.column_chunks)) | self.column_chunks <- dtype(self) is Binary|Bool|Extension|List|None|Null|Primitive|Utf8}).row_offsets.truncate([len(elem({from_elem(BatchOffsets([0], Vec.new()), len(dtype(self)@Struct.0.dtypes)) <- Eq(0, len(self.column_chunks)) & dtype(self) is Some & dtype(self) is Struct | self.column_chunks <- !Eq(0, len(self.column_chunks)) | self.column_chunks <- dtype(self) is Binary|Bool|Extension|List|None|Null|Primitive|Utf8}).row_offsets) - 1])], [len(elem({from_elem(BatchOffsets([0], Vec.new()), len(dtype(self)@Struct.0.dtypes)) <- Eq(0, len(self.column_chunks)) & dtype(self) is Some & dtype(self) is Struct | self.column_chunks <- !Eq(0, len(self.column_chunks)) | self.column_chunks <- dtype(self) is Binary|Bool|Extension|List|None|Null|Primitive|Utf8}).row_offsets) - 1], NonNullable))).write_batch(StructArray.try_new(['row_offset'], [elem({from_elem(BatchOffsets([0], Vec.new()), len(dtype(self)@Struct.0.dtypes)) <- Eq(0, len(self.column_chunks)) & dtype(self) is Some & dtype(self) is Struct | self.column_chunks <- !Eq(0, len(self.column_chunks)) | self.column_chunks <- dtype(self) is Binary|Bool|Extension|List|None|Null|Primitive|Utf8}).row_offsets.truncate([len(elem({from_elem(BatchOffsets([0], Vec.new()), len(dtype(self)@Struct.0.dtypes)) <- Eq(0, len(self.column_chunks)) & dtype(self) is Some & dtype(self) is Struct | self.column_chunks <- !Eq(0, len(self.column_chunks)) | self.column_chunks <- dtype(self) is Binary|Bool|Extension|List|None|Null|Primitive|Utf8}).row_offsets) - 1])], [len(elem({from_elem(BatchOffsets([0], Vec.new()), len(dtype(self)@Struct.0.dtypes)) <- Eq(0, len(self.column_chunks)) & dtype(self) is Some & dtype(self) is Struct | self.column_chunks <- !Eq(0, len(self.column_chunks)) | self.column_chunks <- dtype(self) is Binary|Bool|Extension|List|None|Null|Primitive|Utf8}).row_offsets) - 1], NonNullable)) | self.msgs}), tell(loop{loop.write_batch(StructArray.try_new(['row_offset'], [elem({from_elem(BatchOffsets([0], Vec.new()), len(dtype(self)@Struct.0.dtypes)) <- Eq(0, len(self.column_chunks)) & dtype(self) is Some & dtype(self) is Struct | self.column_chunks <- !Eq(0, len(self.column_chunks)) | self.column_chunks <- dtype(self) is Binary|Bool|Extension|List|None|Null|Primitive|Utf8}).row_offsets.truncate([len(elem({from_elem(BatchOffsets([0], Vec.new()), len(dtype(self)@Struct.0.dtypes)) <- Eq(0, len(self.column_chunks)) & dtype(self) is Some & dtype(self) is Struct | self.column_chunks <- !Eq(0, len(self.column_chunks)) | self.column_chunks <- dtype(self) is Binary|Bool|Extension|List|None|Null|Primitive|Utf8}).row_offsets) - 1])], [len(elem({from_elem(BatchOffsets([0], Vec.new()), len(dtype(self)@Struct.0.dtypes)) <- Eq(0, len(self.column_chunks)) & dtype(self) is Some & dtype(self) is Struct | self.column_chunks <- !Eq(0, len(self.column_chunks)) | self.column_chunks <- dtype(self) is Binary|Bool|Extension|List|None|Null|Primitive|Utf8}).row_offsets) - 1], NonNullable)) | self.msgs}.write_dtype(dtype(StructArray.try_new(['row_offset'], [elem({from_elem(BatchOffsets([0], Vec.new()), len(dtype(self)@Struct.0.dtypes)) <- Eq(0, len(self.column_chunks)) & dtype(self) is Some & dtype(self) is Struct | self.column_chunks <- !Eq(0, len(self.column_chunks)) | self.column_chunks <- dtype(self) is Binary|Bool|Extension|List|None|Null|Primitive|Utf8}).row_offsets.truncate([len(elem({from_elem(BatchOffsets([0], Vec.new()), len(dtype(self)@Struct.0.dtypes)) <- Eq(0, len(self.column_chunks)) & dtype(self) is Some & dtype(self) is Struct | self.column_chunks <- !Eq(0, len(self.column_chunks)) | self.column_chunks <- dtype(self) is Binary|Bool|Extension|List|None|Null|Primitive|Utf8}).row_offsets) - 1])], [len(elem({from_elem(BatchOffsets([0], Vec.new()), len(dtype(self)@Struct.0.dtypes)) <- Eq(0, len(self.column_chunks)) & dtype(self) is Some & dtype(self) is Struct | self.column_chunks <- !Eq(0, len(self.column_chunks)) | self.column_chunks <- dtype(self) is Binary|Bool|Extension|List|None|Null|Primitive|Utf8}).row_offsets) - 1], NonNullable)))))], [flat(ByteRange(tell(loop{loop.write_batch(StructArray.try_new(['row_offset'], [elem({from_elem(BatchOffsets([0], Vec.new()), len(dtype(self)@Struct.0.dtypes)) <- Eq(0, len(self.column_chunks)) & dtype(self) is Some & dtype(self) is Struct | self.column_chunks <- !Eq(0, len(self.column_chunks)) | self.column_chunks <- dtype(self) is Binary|Bool|Extension|List|None|Null|Primitive|Utf8}).row_offsets.truncate([len(elem({from_elem(BatchOffsets([0], Vec.new()), len(dtype(self)@Struct.0.dtypes)) <- Eq(0, len(self.column_chunks)) & dtype(self) is Some & dtype(self) is Struct | self.column_chunks <- !Eq(0, len(self.column_chunks)) | self.column_chunks <- dtype(self) is Binary|Bool|Extension|List|None|Null|Primitive|Utf8}).row_offsets) - 1])], [len(elem({from_elem(BatchOffsets([0], Vec.new()), len(dtype(self)@Struct.0.dtypes)) <- Eq(0, len(self.column_chunks)) & dtype(self) is Some & dtype(self) is Struct | self.column_chunks <- !Eq(0, len(self.column_chunks)) | self.column_chunks <- dtype(self) is Binary|Bool|Extension|List|None|Null|Primitive|Utf8}).row_offsets) - 1], NonNullable)) | self.msgs}.write_dtype(dtype(StructArray.try_new(['row_offset'], [elem({from_elem(BatchOffsets([0], Vec.new()), len(dtype(self)@Struct.0.dtypes)) <- Eq(0, len(self.column_chunks)) & dtype(self) is Some & dtype(self) is Struct | self.column_chunks <- !Eq(0, len(self.column_chunks)) | self.column_chunks <- dtype(self) is Binary|Bool|Extension|List|None|Null|Primitive|Utf8}).row_offsets.truncate([len(elem({from_elem(BatchOffsets([0], Vec.new()), len(dtype(self)@Struct.0.dtypes)) <- Eq(0, len(self.column_chunks)) & dtype(self) is Some & dtype(self) is Struct | self.column_chunks <- !Eq(0, len(self.column_chunks)) | self.column_chunks <- dtype(self) is Binary|Bool|Extension|List|None|Null|Primitive|Utf8}).row_offsets) - 1])], [len(elem({from_elem(BatchOffsets([0], Vec.new()), len(dtype(self)@Struct.0.dtypes)) <- Eq(0, len(self.column_chunks)) & dtype(self) is Some & dtype(self) is Struct | self.column_chunks <- !Eq(0, len(self.column_chunks)) | self.column_chunks <- dtype(self) is Binary|Bool|Extension|List|None|Null|Primitive|Utf8}).row_offsets) - 1], NonNullable)))), tell(loop{loop | self.msgs}.write_dtype(dtype(StructArray.try_new(['row_offset'], [elem({from_elem(BatchOffsets([0], Vec.new()), len(dtype(self)@Struct.0.dtypes)) <- Eq(0, len(self.column_chunks)) & dtype(self) is Some & dtype(self) is Struct | self.column_chunks <- !Eq(0, len(self.column_chunks)) | self.column_chunks <- dtype(self) is Binary|Bool|Extension|List|None|Null|Primitive|Utf8}).row_offsets.truncate([len(elem({from_elem(BatchOffsets([0], Vec.new()), len(dtype(self)@Struct.0.dtypes)) <- Eq(0, len(self.column_chunks)) & dtype(self) is Some & dtype(self) is Struct | self.column_chunks <- !Eq(0, len(self.column_chunks)) | self.column_chunks <- dtype(self) is Binary|Bool|Extension|List|None|Null|Primitive|Utf8}).row_offsets) - 1])], [len(elem({from_elem(BatchOffsets([0], Vec.new()), len(dtype(self)@Struct.0.dtypes)) <- Eq(0, len(self.column_chunks)) & dtype(self) is Some & dtype(self) is Struct | self.column_chunks <- !Eq(0, len(self.column_chunks)) | self.column_chunks <- dtype(self) is Binary|Bool|Extension|List|None|Null|Primitive|Utf8}).row_offsets) - 1], NonNullable))).write_batch(StructArray.try_new(['row_offset'], [elem({from_elem(BatchOffsets([0], Vec.new()), len(dtype(self)@Struct.0.dtypes)) <- Eq(0, len(self.column_chunks)) & dtype(self) is Some & dtype(self) is Struct | self.column_chunks <- !Eq(0, len(self.column_chunks)) | self.column_chunks <- dtype(self) is Binary|Bool|Extension|List|None|Null|Primitive|Utf8}).row_offsets.truncate([len(elem({from_elem(BatchOffsets([0], Vec.new()), len(dtype(self)@Struct.0.dtypes)) <- Eq(0, len(self.column_chunks)) & dtype(self) is Some & dtype(self) is Struct | self.column_chunks <- !Eq(0, len(self.column_chunks)) | self.column_chunks <- dtype(self) is Binary|Bool|Extension|List|None|Null|Primitive|Utf8}).row_offsets) - 1])], [len(elem({from_elem(BatchOffsets([0], Vec.new()), len(dtype(self)@Struct.0.dtypes)) <- Eq(0, len(self.column_chunks)) & dtype(self) is Some & dtype(self) is Struct | self.column_chunks <- !Eq(0, len(self.column_chunks)) | self.column_chunks <- dtype(self) is Binary|Bool|Extension|List|None|Null|Primitive|Utf8}).row_offsets) - 1], NonNullable)))))], None)), copy_from_slice([1]))), None) <- next({from_elem(BatchOffsets([0], Vec.new()), len(dtype(self)@Struct.0.dtypes)) <- Eq(0, len(self.column_chunks)) & dtype(self) is Some & dtype(self) is Struct | self.column_chunks <- !Eq(0, len(self.column_chunks)) | self.column_chunks <- dtype(self) is Binary|Bool|Extension|List|None|Null|Primitive|Utf8}) is None
@ <vortex_serde::layouts::write::writer::LayoutWriter<W>>::finalize args=self voc=write_metadata_arrays,write_footer,write_fb_raw,MessageWriter.into_inner
await(write_fb_raw(self.write_metadata_arrays().write_footer(Footer(await(write_metadata_arrays(self)), self.write_metadata_arrays().row_count)).msgs, await(write_footer(self.write_metadata_arrays(), Footer(await(write_metadata_arrays(self)), self.write_metadata_arrays().row_count))))).write_all(seti(seti(rep(0, 8), 0..2, index(rep(0, 8), 0..[2]).copy_from_slice(to_le_bytes(1))), 4..8, index(seti(rep(0, 8), 0..2, index(rep(0, 8), 0..[2]).copy_from_slice(to_le_bytes(1))), [4]..[8]).copy_from_slice(('#', ('tup', (86, 82, 84, 88))))))
@ <vortex_serde::layouts::write::writer::LayoutWriter<W>>::write_array_columns_stream args=self,x voc=write_column_chunks,array_stream,into_array_stream,StructArray.children,dtype stores=row_count loops=1
[cur(self.row_count) + len(TryFrom.try_from(await(try_next(cur(x)))))]
@ <vortex_serde::layouts::write::writer::LayoutWriter<W>>::write_array_columns_stream args=self,x voc=write_column_chunks,array_stream,into_array_stream,StructArray.children,dtype stores=dtype loops=1
dtype(x) <- dtype(self) is None
'''
READ = r'''
@ <vortex_serde::layouts::read::footer::LayoutDescriptor>::initial_read_layout_offset args=self
[self.footer_offset - self.initial_read_offset]
@ <vortex_serde::layouts::read::footer::LayoutDescriptor>::initial_read_schema_offset args=self
[-self.initial_read_offset + self.schema_offset]
@ <vortex_serde::layouts::read::footer::LayoutDescriptor>::layout args=self,x,y
read_layout(self.layout_serde, slice(self.initial_read, [self.footer_offset - self.initial_read_offset + 4]..[len(self.initial_read) - 40]), loc(get(root(slice(self.initial_read, [self.footer_offset - self.initial_read_offset + 4]..[len(self.initial_read) - 40]))._tab, 4, None)._tab), x, y)
@ <vortex_serde::layouts::read::footer::LayoutDescriptor>::dtype args=self,x,y errs=1
TryFrom.try_from(dtype(fb_schema(self)))
@ <vortex_serde::layouts::read::footer::LayoutDescriptor>::dtype_bytes args=self,x,y errs=1
slice(self.initial_read, [-self.initial_read_offset + self.schema_offset + 4]..[self.footer_offset - self.initial_read_offset])
@ <vortex_serde::layouts::read::footer::LayoutDescriptor>::fb_schema args=self,x,y errs=1
optfilter(Schema(get(root(index(self.initial_read, [-self.initial_read_offset + self.schema_offset + 4]..[self.footer_offset - self.initial_read_offset]))._tab, 8, None)), Eq(MessageHeader(1), get(root(index(self.initial_read, [-self.initial_read_offset + self.schema_offset + 4]..[self.footer_offset - self.initial_read_offset]))._tab, 6, MessageHeader(0))))
@ <vortex_serde::layouts::read::footer::LayoutDescriptor>::projected_dtype args=self,x,y errs=1
deserialize_and_project(dtype(fb_schema(self)), x)
@ <vortex_serde::layouts::read::footer::LayoutDescriptorReader>::new args=self,x,y
LayoutDescriptorReader(self)
@ <vortex_serde::layouts::read::footer::LayoutDescriptorReader>::read_footer args=self,x,y flat=1
LayoutDescriptor(get(root(index(await(read_at_into(x, [-min(8388608, y) + y], BytesMut.with_capacity().set_len(min(8388608, y)))), [min(8388608, y) - 40]..[min(8388608, y) - 8]))._tab, 4, 0), get(root(index(await(read_at_into(x, [-min(8388608, y) + y], BytesMut.with_capacity().set_len(min(8388608, y)))), [min(8388608, y) - 40]..[min(8388608, y) - 8]))._tab, 6, 0), freeze({await(read_at_into(x, [-min(8388608, y) + y], BytesMut.with_capacity().set_len(min(8388608, y)))) <- !Lt(get(root(index(await(read_at_into(x, [-min(8388608, y) + y], BytesMut.with_capacity().set_len(min(8388608, y)))), [min(8388608, y) - 40]..[min(8388608, y) - 8]))._tab, 4, 0), [-min(8388608, y) + y]) | await(read_at_into(x, get(root(index(await(read_at_into(x, [-min(8388608, y) + y], BytesMut.with_capacity().set_len(min(8388608, y)))), [min(8388608, y) - 40]..[min(8388608, y) - 8]))._tab, 4, 0), BytesMut.with_capacity().set_len([-get(root(index(await(read_at_into(x, [-min(8388608, y) + y], BytesMut.with_capacity().set_len(min(8388608, y)))), [min(8388608, y) - 40]..[min(8388608, y) - 8]))._tab, 4, 0) + y]))) <- Lt(get(root(index(await(read_at_into(x, [-min(8388608, y) + y], BytesMut.with_capacity().set_len(min(8388608, y)))), [min(8388608, y) - 40]..[min(8388608, y) - 8]))._tab, 4, 0), [-min(8388608, y) + y])}), {[-min(8388608, y) + y] <- !Lt(get(root(index(await(read_at_into(x, [-min(8388608, y) + y], BytesMut.with_capacity().set_len(min(8388608, y)))), [min(8388608, y) - 40]..[min(8388608, y) - 8]))._tab, 4, 0), [-min(8388608, y) + y]) | get(root(index(await(read_at_into(x, [-min(8388608, y) + y], BytesMut.with_capacity().set_len(min(8388608, y)))), [min(8388608, y) - 40]..[min(8388608, y) - 8]))._tab, 4, 0) <- Lt(get(root(index(await(read_at_into(x, [-min(8388608, y) + y], BytesMut.with_capacity().set_len(min(8388608, y)))), [min(8388608, y) - 40]..[min(8388608, y) - 8]))._tab, 4, 0), [-min(8388608, y) + y])}, self.layout_serde)
@ <vortex_serde::layouts::read::footer::LayoutDescriptorReader>::read_footer args=self,x,y calls=read_at_into#1 under=all n=2
read_at_into([-min(8388608, y) + y])
read_at_into(get(root(index(await(read_at_into(x, [-min(8388608, y) + y], BytesMut.with_capacity().set_len(min(8388608, y)))), [min(8388608, y) - 40]..[min(8388608, y) - 8]))._tab, 4, 0)) <- Lt(get(root(index(await(read_at_into(x, [-min(8388608, y) + y], BytesMut.with_capacity().set_len(min(8388608, y)))), [min(8388608, y) - 40]..[min(8388608, y) - 8]))._tab, 4, 0), [-min(8388608, y) + y]) & poll(read_at_into(x, [-min(8388608, y) + y], BytesMut.with_capacity().set_len(min(8388608, y)))) is Ready
@ <vortex_serde::layouts::read::context::LayoutContext as core::default::Default>::default args=self,a,b,c,d
LayoutContext(each((id(elem([ColumnLayoutSpec, ChunkedLayoutSpec, FlatLayoutSpec])), elem([ColumnLayoutSpec, ChunkedLayoutSpec, FlatLayoutSpec]))))
@ <vortex_serde::layouts::read::context::LayoutContext>::lookup_layout args=self,a,b,c,d
get(self.layout_refs, a)
@ <vortex_serde::layouts::read::context::LayoutContext>::new args=self,a,b,c,d
LayoutContext(self)
@ <vortex_serde::layouts::read::context::LayoutDeserializer>::ctx args=self,a,b,c,d
self.ctx
@ <vortex_serde::layouts::read::context::LayoutDeserializer>::new args=self,a,b,c,d
LayoutDeserializer(self, a)
@ <vortex_serde::layouts::read::context::LayoutDeserializer>::read_layout args=self,a,b,c,d
layout(get(self.layout_ctx.layout_refs, LayoutId(get(Table.new(a, b), 4, 0))), a, b, c, self, d)
@ <vortex_serde::layouts::read::context::LayoutId as core::fmt::Display>::fmt args=self,a,b,c,d
fmt(self.0, a)
@ <vortex_serde::layouts::read::layouts::chunked::ChunkedLayoutSpec as vortex_serde::layouts::read::context::LayoutSpec>::id args=self,a,b,c,d
LayoutId(2)
@ <vortex_serde::layouts::read::layouts::chunked::ChunkedLayoutSpec as vortex_serde::layouts::read::context::LayoutSpec>::layout args=self,a,b,c,d
ChunkedLayout(a, b, c, d, message_cache, None)
@ <vortex_serde::layouts::read::layouts::column::ColumnLayoutSpec as vortex_serde::layouts::read::context::LayoutSpec>::id args=self,a,b,c,d
LayoutId(3)
@ <vortex_serde::layouts::read::layouts::column::ColumnLayoutSpec as vortex_serde::layouts::read::context::LayoutSpec>::layout args=self,a,b,c,d
ColumnLayout(a, b, c, d, message_cache, None)
@ <vortex_serde::layouts::read::layouts::flat::FlatLayoutSpec as vortex_serde::layouts::read::context::LayoutSpec>::id args=self,a,b,c,d
LayoutId(1)
@ <vortex_serde::layouts::read::layouts::flat::FlatLayoutSpec as vortex_serde::layouts::read::context::LayoutSpec>::layout args=self,a,b,c,d
FlatLayout(ByteRange(EndianScalar.from_little_endian(assume_init(uninit().as_mut_ptr())), EndianScalar.from_little_endian(assume_init(uninit().as_mut_ptr()))), c, d.ctx, message_cache, False, None)
@ <vortex_serde::layouts::read::layouts::inline_dtype::InlineDTypeLayoutSpec as vortex_serde::layouts::read::context::LayoutSpec>::id args=self,a,b,c,d
LayoutId(4)
@ <vortex_serde::layouts::read::layouts::inline_dtype::InlineDTypeLayoutSpec as vortex_serde::layouts::read::context::LayoutSpec>::layout args=self,a,b,c,d
InlineDTypeLayout(a, b, c, d, message_cache, None)
@ <vortex_serde::layouts::read::layouts::chunked::ChunkedLayoutSpec as vortex_serde::layouts::read::context::LayoutSpec>::id args=self
LayoutId(2)
@ <vortex_serde::layouts::read::layouts::column::ColumnLayoutSpec as vortex_serde::layouts::read::context::LayoutSpec>::id args=self
LayoutId(3)
@ <vortex_serde::layouts::read::layouts::flat::FlatLayoutSpec as vortex_serde::layouts::read::context::LayoutSpec>::id args=self
LayoutId(1)
@ <vortex_serde::layouts::read::layouts::inline_dtype::InlineDTypeLayoutSpec as vortex_serde::layouts::read::context::LayoutSpec>::id args=self
LayoutId(4)
@ <vortex_serde::layouts::read::layouts::flat::FlatLayoutSpec as vortex_serde::layouts::read::context::LayoutSpec>::layout args=self,a,b,c,d flat=1
FlatLayout(ByteRange(begin(get(get(Table.new(a, b), 6, None), 0)), end(get(get(Table.new(a, b), 6, None), 0))), c, d.ctx, message_cache, False, None)
@ <vortex_serde::layouts::read::layouts::chunked::ChunkedLayoutSpec as vortex_serde::layouts::read::context::LayoutSpec>::layout args=self,a,b,c,d
ChunkedLayout(a, b, c, d, message_cache, None)
@ <vortex_serde::layouts::read::layouts::column::ColumnLayoutSpec as vortex_serde::layouts::read::context::LayoutSpec>::layout args=self,a,b,c,d
ColumnLayout(a, b, c, d, message_cache, None)
@ <vortex_serde::layouts::read::layouts::inline_dtype::InlineDTypeLayoutSpec as vortex_serde::layouts::read::context::LayoutSpec>::layout args=self,a,b,c,d
InlineDTypeLayout(a, b, c, d, message_cache, None)
@ <vortex_serde::layouts::read::cache::LazyDeserializedDType>::fb_schema args=self,a,b,c,d
optfilter(Schema(get(root_unchecked(self)._tab, 8, None)), Eq(MessageHeader(1), get(root_unchecked(self)._tab, 6, MessageHeader(0))))
@ <vortex_serde::layouts::read::cache::LazyDeserializedDType>::from_bytes args=self,a,b,c,d
LazyDeserializedDType(Serialized(self, OnceCell.new(), a))
@ <vortex_serde::layouts::read::cache::LazyDeserializedDType>::from_dtype args=self,a,b,c,d
LazyDeserializedDType(Value(self))
@ <vortex_serde::layouts::read::cache::LazyDeserializedDType>::project args=self,a,b,c,d
LazyDeserializedDType(Serialized(self.inner@Serialized.0, OnceCell.new(), Flat(a))) <- self.inner is Serialized
LazyDeserializedDType(Value(Struct(StructDType(each(index(self.inner@Value.0@Struct.0.names, {elem(a)@Index.0 <- elem(a) is Index | iposition(self.inner@Value.0@Struct.0.names, Eq(elem(a)@Name.0, elem(self.inner@Value.0@Struct.0.names))) <- elem(a) is Name})), each(index(self.inner@Value.0@Struct.0.dtypes, {elem(a)@Index.0 <- elem(a) is Index | iposition(self.inner@Value.0@Struct.0.names, Eq(elem(a)@Name.0, elem(self.inner@Value.0@Struct.0.names))) <- elem(a) is Name}))), self.inner@Value.0@Struct.1))) <- self.inner is Value
@ <vortex_serde::layouts::read::cache::LazyDeserializedDType>::resolve_field args=self,a,b,c,d
a@Index.0 <- a is Index
iposition(get(get(dtype(Schema(get(root_unchecked(self.inner@Serialized.0)._tab, 8, None)))._tab, 6, None), 4, None), Eq(a@Name.0, elem(get(get(dtype(Schema(get(root_unchecked(self.inner@Serialized.0)._tab, 8, None)))._tab, 6, None), 4, None)))) <- a is Name & self.inner is Serialized
iposition(self.inner@Value.0@Struct.0.names, Eq(a@Name.0, elem(self.inner@Value.0@Struct.0.names))) <- a is Name & self.inner is Value
@ <vortex_serde::layouts::read::cache::LazyDeserializedDType>::value args=self,a,b,c,d
get_or_try_init(self.inner@Serialized.1, fn({Struct(StructDType(unzip(each((get(get(get(dtype(Schema(get(root_unchecked(self.inner@Serialized.0)._tab, 8, None)))._tab, 6, None), 4, None), {elem(self.inner@Serialized.2@Flat.0)@Index.0 <- elem(self.inner@Serialized.2@Flat.0) is Index | iposition(get(get(dtype(Schema(get(root_unchecked(self.inner@Serialized.0)._tab, 8, None)))._tab, 6, None), 4, None), Eq(elem(get(get(dtype(Schema(get(root_unchecked(self.inner@Serialized.0)._tab, 8, None)))._tab, 6, None), 4, None)), elem(self.inner@Serialized.2@Flat.0)@Name.0)) <- elem(self.inner@Serialized.2@Flat.0) is Name}), TryFrom.try_from(get(get(get(dtype(Schema(get(root_unchecked(self.inner@Serialized.0)._tab, 8, None)))._tab, 6, None), 6, None), {elem(self.inner@Serialized.2@Flat.0)@Index.0 <- elem(self.inner@Serialized.2@Flat.0) is Index | iposition(get(get(dtype(Schema(get(root_unchecked(self.inner@Serialized.0)._tab, 8, None)))._tab, 6, None), 4, None), Eq(elem(get(get(dtype(Schema(get(root_unchecked(self.inner@Serialized.0)._tab, 8, None)))._tab, 6, None), 4, None)), elem(self.inner@Serialized.2@Flat.0)@Name.0)) <- elem(self.inner@Serialized.2@Flat.0) is Name}))))).0, unzip(each((get(get(get(dtype(Schema(get(root_unchecked(self.inner@Serialized.0)._tab, 8, None)))._tab, 6, None), 4, None), {elem(self.inner@Serialized.2@Flat.0)@Index.0 <- elem(self.inner@Serialized.2@Flat.0) is Index | iposition(get(get(dtype(Schema(get(root_unchecked(self.inner@Serialized.0)._tab, 8, None)))._tab, 6, None), 4, None), Eq(elem(get(get(dtype(Schema(get(root_unchecked(self.inner@Serialized.0)._tab, 8, None)))._tab, 6, None), 4, None)), elem(self.inner@Serialized.2@Flat.0)@Name.0)) <- elem(self.inner@Serialized.2@Flat.0) is Name}), TryFrom.try_from(get(get(get(dtype(Schema(get(root_unchecked(self.inner@Serialized.0)._tab, 8, None)))._tab, 6, None), 6, None), {elem(self.inner@Serialized.2@Flat.0)@Index.0 <- elem(self.inner@Serialized.2@Flat.0) is Index | iposition(get(get(dtype(Schema(get(root_unchecked(self.inner@Serialized.0)._tab, 8, None)))._tab, 6, None), 4, None), Eq(elem(get(get(dtype(Schema(get(root_unchecked(self.inner@Serialized.0)._tab, 8, None)))._tab, 6, None), 4, None)), elem(self.inner@Serialized.2@Flat.0)@Name.0)) <- elem(self.inner@Serialized.2@Flat.0) is Name}))))).1), {NonNullable <- !get(get(dtype(Schema(get(root_unchecked(self.inner@Serialized.0)._tab, 8, None)))._tab, 6, None), 8, False) | Nullable <- get(get(dtype(Schema(get(root_unchecked(self.inner@Serialized.0)._tab, 8, None)))._tab, 6, None), 8, False)}) <- self.inner@Serialized.2 is Flat | TryFrom.try_from(dtype(Schema(get(root_unchecked(self.inner@Serialized.0)._tab, 8, None)))) <- self.inner@Serialized.2 is All})) <- self.inner is Serialized
self.inner@Value.0 <- self.inner is Value
'''
def run(c):
    spec.run_tables(c, (('writer', WRITE), ('writer', GUARDS), ('reader', READ),), 'must keep the file format', r'vortex_serde::layouts::(write|read::footer|read::context)::.*$', ('reader', 8))
