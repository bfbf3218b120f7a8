from lib import *
import spec
ID = 'C15'
TITLE = 'IPC streams give back what was written'
RULE = 'the normal form of every step of the IPC message writer and reader (what it returns, what it leaves in its state, in which order it writes and reads) and of the flatbuffer writers of the messages is compared with the form that denotes the stream format'
WRITE = r'''
@ <vortex_serde::message_writer::MessageWriter<W>>::into_inner args=self
self.write
@ <vortex_serde::message_writer::MessageWriter<W>>::new args=self
MessageWriter(self, 0, 64, Vec.new())
@ <vortex_serde::message_writer::MessageWriter<W>>::tell args=self
self.pos
@ <vortex_serde::message_writer::MessageWriter<W>>::write_all args=self,buf out=1
.write = self.write.write_all(buf)
.pos = or([bytes_init(await(write_all(self.write, buf))) + self.pos], self.pos)
@ <vortex_serde::message_writer::MessageWriter<W>>::write_all args=self,buf flat=1
await(write_all(self.write, buf))
@ <vortex_serde::message_writer::MessageWriter<W>>::write_message args=self,x seq=write_all|write_flatbuffer|finish_minimal#1
finish_minimal(write_flatbuffer(x, FlatBufferBuilder.from_vec(or(self.scratch, default(alloc::vec::Vec<u8, alloc::alloc::Global>)).clear().extend_from_slice(rep(0, 4))))) ; write_all(to_le_bytes(as_u32([and(![self.alignment - 1], [-collapse(FlatBufferBuilder.from_vec(or(self.scratch, default(alloc::vec::Vec<u8, alloc::alloc::Global>)).clear().extend_from_slice(rep(0, 4)))).1 + len(collapse(FlatBufferBuilder.from_vec(or(self.scratch, default(alloc::vec::Vec<u8, alloc::alloc::Global>)).clear().extend_from_slice(rep(0, 4)))).0) + self.alignment + 3]) - 4])))
write_all(Slice(collapse(FlatBufferBuilder.from_vec(or(self.scratch, default(alloc::vec::Vec<u8, alloc::alloc::Global>)).clear().extend_from_slice(rep(0, 4)))).0, collapse(FlatBufferBuilder.from_vec(or(self.scratch, default(alloc::vec::Vec<u8, alloc::alloc::Global>)).clear().extend_from_slice(rep(0, 4)))).1, len(collapse(FlatBufferBuilder.from_vec(or(self.scratch, default(alloc::vec::Vec<u8, alloc::alloc::Global>)).clear().extend_from_slice(rep(0, 4)))).0))) ; write_all(index(rep(0, 512), 0..[and(![self.alignment - 1], [-collapse(FlatBufferBuilder.from_vec(or(self.scratch, default(alloc::vec::Vec<u8, alloc::alloc::Global>)).clear().extend_from_slice(rep(0, 4)))).1 + len(collapse(FlatBufferBuilder.from_vec(or(self.scratch, default(alloc::vec::Vec<u8, alloc::alloc::Global>)).clear().extend_from_slice(rep(0, 4)))).0) + self.alignment + 3]) + collapse(FlatBufferBuilder.from_vec(or(self.scratch, default(alloc::vec::Vec<u8, alloc::alloc::Global>)).clear().extend_from_slice(rep(0, 4)))).1 - len(collapse(FlatBufferBuilder.from_vec(or(self.scratch, default(alloc::vec::Vec<u8, alloc::alloc::Global>)).clear().extend_from_slice(rep(0, 4)))).0) - 4]))
write_all(to_le_bytes(as_u32([and(![self.alignment - 1], [-collapse(FlatBufferBuilder.from_vec(or(self.scratch, default(alloc::vec::Vec<u8, alloc::alloc::Global>)).clear().extend_from_slice(rep(0, 4)))).1 + len(collapse(FlatBufferBuilder.from_vec(or(self.scratch, default(alloc::vec::Vec<u8, alloc::alloc::Global>)).clear().extend_from_slice(rep(0, 4)))).0) + self.alignment + 3]) - 4]))) ; write_all(Slice(collapse(FlatBufferBuilder.from_vec(or(self.scratch, default(alloc::vec::Vec<u8, alloc::alloc::Global>)).clear().extend_from_slice(rep(0, 4)))).0, collapse(FlatBufferBuilder.from_vec(or(self.scratch, default(alloc::vec::Vec<u8, alloc::alloc::Global>)).clear().extend_from_slice(rep(0, 4)))).1, len(collapse(FlatBufferBuilder.from_vec(or(self.scratch, default(alloc::vec::Vec<u8, alloc::alloc::Global>)).clear().extend_from_slice(rep(0, 4)))).0)))
write_flatbuffer(FlatBufferBuilder.from_vec(or(self.scratch, default(alloc::vec::Vec<u8, alloc::alloc::Global>)).clear().extend_from_slice(rep(0, 4)))) ; finish_minimal(write_flatbuffer(x, FlatBufferBuilder.from_vec(or(self.scratch, default(alloc::vec::Vec<u8, alloc::alloc::Global>)).clear().extend_from_slice(rep(0, 4)))))
@ <vortex_serde::message_writer::MessageWriter<W>>::write_batch args=self,x seq=write_all|write_message#1
write_all(elem(flat(ArrayChildrenIterator([x]), into_buffer(elem(ArrayChildrenIterator([x])))))) ; write_all(index(rep(0, 512), 0..[-len(elem(flat(ArrayChildrenIterator([x]), into_buffer(elem(ArrayChildrenIterator([x])))))) - loop{0 | nth(elem(all_buffer_offsets(x, self.alignment)), 1)} + nth(elem(all_buffer_offsets(x, self.alignment)), 1)]))
write_message(Batch(IPCBatch(x))) ; write_all(elem(flat(ArrayChildrenIterator([x]), into_buffer(elem(ArrayChildrenIterator([x]))))))
@ <vortex_serde::message_writer::MessageWriter<W>>::write_dtype args=self,x seq=write_all|write_message#1
write_message(Schema(IPCSchema(x)))
@ <vortex_serde::message_writer::MessageWriter<W>>::write_page args=self,x seq=write_all|write_message#1
write_all(x) ; write_all(index(rep(0, 512), 0..[and(![self.alignment - 1], [len(x) + self.alignment - 1]) - len(x)]))
write_message(Page(IPCPage(x))) ; write_all(x)
'''
READ = r'''
@ <vortex_serde::message_reader::MessageReader<R>>::peek args=self
None <- self.finished
root_unchecked(self.message) <- !self.finished
@ <vortex_serde::message_reader::MessageReader<R>>::try_new args=read flat=1
{MessageReader(read, BytesMut.new(), BytesMut.new(), False).load_next_message() <- await(load_next_message(MessageReader(read, BytesMut.new(), BytesMut.new(), False))) | with(MessageReader(read, BytesMut.new(), BytesMut.new(), False).load_next_message().finished=True) <- !await(load_next_message(MessageReader(read, BytesMut.new(), BytesMut.new(), False)))}
@ <vortex_serde::message_reader::MessageReader<R>>::into_inner args=self flat=1 errs=1
self.read
@ <vortex_serde::message_reader::MessageReader<R>>::load_next_message args=self flat=1 errs=1
False <- Eq(4294967295, get_u32_le(await(read_into(self.read, self.message.resize(4, 0)))))
False <- await(read_into(self.read, self.message.resize(4, 0))) is Err & kind(await(read_into(self.read, self.message.resize(4, 0)))@Err.0) is UnexpectedEof
True <- !Eq(0, get_u32_le(await(read_into(self.read, self.message.resize(4, 0))))) & !Eq(4294967295, get_u32_le(await(read_into(self.read, self.message.resize(4, 0))))) & await(read_into(self.read, self.message.resize(4, 0))) is Ok
@ <vortex_serde::message_reader::MessageReader<R>>::maybe_read_page args=self flat=1 errs=1
Bytes(freeze(await(read_into(self.read, BytesMut.with_capacity().set_len([get(get(root_unchecked(self.message)._tab, 8, None), 4, 0) + get(get(root_unchecked(self.message)._tab, 8, None), 6, 0)]))).truncate(get(get(root_unchecked(self.message)._tab, 8, None), 4, 0))))
None
@ <vortex_serde::message_reader::MessageReader<R>>::next args=self flat=1 errs=1
Bytes(freeze(split(self.message))) <- !self.finished
@ <vortex_serde::message_reader::MessageReader<R>>::read_dtype args=self flat=1 errs=1
TryFrom.try_from(dtype(Schema(get(root_unchecked(await(next(self))@*)._tab, 8, None))))
@ <vortex_serde::message_reader::MessageReader<R>>::load_next_message args=self out=1
.read = self.read.read_into(self.message.resize(4, 0)) <- Eq(0, get_u32_le(await(read_into(self.read, self.message.resize(4, 0)))))
.read = self.read.read_into(self.message.resize(4, 0)) <- Eq(4294967295, get_u32_le(await(read_into(self.read, self.message.resize(4, 0)))))
.read = self.read.read_into(self.message.resize(4, 0)) <- await(read_into(self.read, self.message.resize(4, 0))) is Err
.read = self.read.read_into(self.message.resize(4, 0)).read_into(await(read_into(self.read, self.message.resize(4, 0))).get_u32_le().reserve(get_u32_le(await(read_into(self.read, self.message.resize(4, 0))))).set_len(get_u32_le(await(read_into(self.read, self.message.resize(4, 0)))))) <- !Eq(0, get_u32_le(await(read_into(self.read, self.message.resize(4, 0))))) & !Eq(4294967295, get_u32_le(await(read_into(self.read, self.message.resize(4, 0))))) & await(read_into(self.read, self.message.resize(4, 0))) is Ok
.message = await(read_into(self.read.read_into(self.message.resize(4, 0)), await(read_into(self.read, self.message.resize(4, 0))).get_u32_le().reserve(get_u32_le(await(read_into(self.read, self.message.resize(4, 0))))).set_len(get_u32_le(await(read_into(self.read, self.message.resize(4, 0))))))) <- !Eq(0, get_u32_le(await(read_into(self.read, self.message.resize(4, 0))))) & !Eq(4294967295, get_u32_le(await(read_into(self.read, self.message.resize(4, 0))))) & await(read_into(self.read, self.message.resize(4, 0))) is Ok & await(read_into(self.read.read_into(self.message.resize(4, 0)), await(read_into(self.read, self.message.resize(4, 0))).get_u32_le().reserve(get_u32_le(await(read_into(self.read, self.message.resize(4, 0))))).set_len(get_u32_le(await(read_into(self.read, self.message.resize(4, 0))))))) is Ok
.message = default(bytes::bytes_mut::BytesMut) <- Eq(0, get_u32_le(await(read_into(self.read, self.message.resize(4, 0)))))
.message = default(bytes::bytes_mut::BytesMut) <- Eq(4294967295, get_u32_le(await(read_into(self.read, self.message.resize(4, 0)))))
.message = default(bytes::bytes_mut::BytesMut) <- await(read_into(self.read, self.message.resize(4, 0))) is Err
.message = default(bytes::bytes_mut::BytesMut) <- await(read_into(self.read.read_into(self.message.resize(4, 0)), await(read_into(self.read, self.message.resize(4, 0))).get_u32_le().reserve(get_u32_le(await(read_into(self.read, self.message.resize(4, 0))))).set_len(get_u32_le(await(read_into(self.read, self.message.resize(4, 0))))))) is Err
@ <vortex_serde::message_reader::MessageReader<R>>::next args=self out=1
.read = with(with(self.message=self.message.split()).prev_message=split(self.message)).load_next_message().read <- !self.finished
.read = {self <- self.finished | with(with(self.message=self.message.split()).prev_message=split(self.message)).load_next_message() <- !self.finished}.read
.message = with(with(self.message=self.message.split()).prev_message=split(self.message)).load_next_message().message <- !self.finished
.message = {self <- self.finished | with(with(self.message=self.message.split()).prev_message=split(self.message)).load_next_message() <- !self.finished}.message
.prev_message = with(with(self.message=self.message.split()).prev_message=split(self.message)).load_next_message().prev_message <- !self.finished
.prev_message = {self <- self.finished | with(with(self.message=self.message.split()).prev_message=split(self.message)).load_next_message() <- !self.finished}.prev_message
.finished = True <- !await(load_next_message(with(with(self.message=self.message.split()).prev_message=split(self.message)))) & !self.finished
.finished = with(with(self.message=self.message.split()).prev_message=split(self.message)).load_next_message().finished <- !self.finished & await(load_next_message(with(with(self.message=self.message.split()).prev_message=split(self.message))))
.finished = {self <- self.finished | with(with(self.message=self.message.split()).prev_message=split(self.message)).load_next_message() <- !self.finished}.finished
@ <vortex_serde::message_reader::MessageReader<R>>::load_next_message args=self seq=read_into#1
read_into(self.message.resize(4, 0)) ; read_into(await(read_into(self.read, self.message.resize(4, 0))).get_u32_le().reserve(get_u32_le(await(read_into(self.read, self.message.resize(4, 0))))).set_len(get_u32_le(await(read_into(self.read, self.message.resize(4, 0))))))
@ <vortex_serde::message_reader::MessageReader<R>>::maybe_read_page args=self seq=read_into|next#1
read_into(BytesMut.with_capacity().set_len([get(get(root_unchecked(self.message)._tab, 8, None), 4, 0) + get(get(root_unchecked(self.message)._tab, 8, None), 6, 0)])) ; next()
@ <vortex_serde::message_reader::MessageReader<R>>::read_dtype args=self seq=read_into|next#1
next()
@ <vortex_serde::message_reader::MessageReader<R>>::maybe_read_chunk args=self,ctx,dtype flat=1 voc=read,from_fb_bytes
None
into_array(ArrayBufferReader.from_fb_bytes(Bytes(freeze(self.message))).read(freeze(await(read_into(self.read, BytesMut.with_capacity().set_len(get(get(root_unchecked(self.message)._tab, 8, None), 10, 0)))))), ctx, dtype)
@ <vortex_serde::message_reader::MessageReader<R>>::maybe_read_chunk args=self,ctx,dtype seq=read_into|read|next|into_array voc=from_fb_bytes
next(with(self.read=self.read)) ; into_array(ArrayBufferReader.from_fb_bytes(Bytes(freeze(self.message))).read(freeze(await(read_into(self.read, BytesMut.with_capacity().set_len(get(get(root_unchecked(self.message)._tab, 8, None), 10, 0)))))), ctx, dtype)
read(ArrayBufferReader.from_fb_bytes(Bytes(freeze(self.message))), freeze(await(read_into(self.read, BytesMut.with_capacity().set_len(get(get(root_unchecked(self.message)._tab, 8, None), 10, 0)))))) ; next(with(self.read=self.read))
read_into(self.read, BytesMut.with_capacity().set_len(get(get(root_unchecked(self.message)._tab, 8, None), 10, 0))) ; read(ArrayBufferReader.from_fb_bytes(Bytes(freeze(self.message))), freeze(await(read_into(self.read, BytesMut.with_capacity().set_len(get(get(root_unchecked(self.message)._tab, 8, None), 10, 0))))))
@ <vortex_serde::message_reader::ArrayBufferReader>::fb_bytes_as_batch args=self,a,b
optfilter(Batch(get(root_unchecked(self.fb_msg@*)._tab, 8, None)), Eq(MessageHeader(2), get(root_unchecked(self.fb_msg@*)._tab, 6, MessageHeader(0))))
@ <vortex_serde::message_reader::ArrayBufferReader>::from_fb_bytes args=self,a,b
ArrayBufferReader(ReadingBuffers, self, Vec.new())
@ <vortex_serde::message_reader::ArrayBufferReader>::into_array args=self,a,b
ArrayView(get(a.encodings, get(get(get(root_unchecked(self.fb_msg@*)._tab, 8, None), 4, None)._tab, 8, 0)), b, get(get(root_unchecked(self.fb_msg@*)._tab, 8, None), 6, 0), self.fb_msg, loc(get(get(root_unchecked(self.fb_msg@*)._tab, 8, None), 4, None)._tab), self.buffers, a)
@ <vortex_serde::message_reader::ArrayBufferReader>::new args=self,a,b
ArrayBufferReader(Init, None, Vec.new())
@ <vortex_serde::message_reader::ArrayBufferReader>::read args=self,a,b
4 <- self.state is Init
None <- self.state is ReadingBuffers
get(get(root_unchecked(a)._tab, 8, None), 10, 0) <- self.state is ReadingFb
get_u32_le(a) <- self.state is ReadingLength
@ <vortex_serde::message_reader::ArrayBufferReader>::read args=self,a out=1
.state = Finished <- self.fb_msg is Some & self.state is ReadingBuffers
.state = ReadingBuffers <- self.state is ReadingFb
.state = ReadingFb <- self.state is ReadingLength
.state = ReadingLength <- self.state is Init
.state = self.state <- self.state is Finished|ReadingBuffers|ReadingFb
.fb_msg = Bytes(a) <- self.state is ReadingFb
.fb_msg = self.fb_msg
.buffers = each(Bytes(split_to(loop{a | loop.split_to([elem(chain(skip(each(offset(elem(or(get(get(root_unchecked(self.fb_msg@*)._tab, 8, None), 8, None), default(flatbuffers::vector::Vector<vortex_flatbuffers::message::Buffer>))))), 1), [get(get(root_unchecked(self.fb_msg@*)._tab, 8, None), 10, 0)])) - offset(elem(or(get(get(root_unchecked(self.fb_msg@*)._tab, 8, None), 8, None), default(flatbuffers::vector::Vector<vortex_flatbuffers::message::Buffer>)))) - padding(elem(or(get(get(root_unchecked(self.fb_msg@*)._tab, 8, None), 8, None), default(flatbuffers::vector::Vector<vortex_flatbuffers::message::Buffer>))))]).advance(padding(elem(or(get(get(root_unchecked(self.fb_msg@*)._tab, 8, None), 8, None), default(flatbuffers::vector::Vector<vortex_flatbuffers::message::Buffer>)))))}, [elem(chain(skip(each(offset(elem(or(get(get(root_unchecked(self.fb_msg@*)._tab, 8, None), 8, None), default(flatbuffers::vector::Vector<vortex_flatbuffers::message::Buffer>))))), 1), [get(get(root_unchecked(self.fb_msg@*)._tab, 8, None), 10, 0)])) - offset(elem(or(get(get(root_unchecked(self.fb_msg@*)._tab, 8, None), 8, None), default(flatbuffers::vector::Vector<vortex_flatbuffers::message::Buffer>)))) - padding(elem(or(get(get(root_unchecked(self.fb_msg@*)._tab, 8, None), 8, None), default(flatbuffers::vector::Vector<vortex_flatbuffers::message::Buffer>))))]))) <- self.fb_msg is Some & self.state is ReadingBuffers
.buffers = self.buffers
'''
MSG = r'''
@ <vortex_serde::messages::IPCArray as vortex_flatbuffers::WriteFlatBuffer>::write_flatbuffer args=self,fbb flat=1
create(fbb, ArrayArgs(default(vortex_flatbuffers::array::Version), self.1, id({self.0@Data.0.encoding <- self.0 is Data | self.0@View.0.encoding <- self.0 is View}).1, {create_vector(fbb, metadata(self.0@View.0)) <- self.0 is View | create_vector(fbb, try_serialize_metadata(metadata(self.0@Data.0))) <- self.0 is Data}, write_flatbuffer(statistics(self.0), fbb), create_vector(fbb, fmap(children(self.0), write_flatbuffer(IPCArray(elem(children(self.0)), loop{[cumulative_nbuffers(elem(children(self.0))) + loop] | [self.1 + {0 <- buffer(self.0) is None | 1 <- buffer(self.0) is Some}] | loop{[cumulative_nbuffers(elem(children(self.0))) + loop] | [self.1 + {0 <- buffer(self.0) is None | 1 <- buffer(self.0) is Some}]}}), fbb)))))
@ <vortex_serde::messages::IPCMessage as vortex_flatbuffers::WriteFlatBuffer>::write_flatbuffer args=self,fbb voc=create,write_flatbuffer,cumulative_nbuffers,children,buffer,try_serialize_metadata,statistics,metadata,depth_first_traversal flat=1
WIPOffset.new(value(end_table(fbb, start_table(fbb))))
@ <vortex_serde::messages::IPCPage as vortex_flatbuffers::WriteFlatBuffer>::write_flatbuffer args=self,fbb flat=1
create(fbb, PageArgs(as_u32(len(self.0)), as_u16([and(!63, [len(self.0) + 63]) - len(self.0)])))
@ <vortex_serde::messages::IPCSchema as vortex_flatbuffers::WriteFlatBuffer>::write_flatbuffer args=self,fbb flat=1
create(fbb, SchemaArgs(write_flatbuffer(self.0, fbb)))
@ <vortex_serde::messages::IPCArray as vortex_flatbuffers::WriteFlatBuffer>::write_flatbuffer args=self,fbb voc=create,write_flatbuffer,cumulative_nbuffers,children,buffer,try_serialize_metadata,statistics,metadata calls=write_flatbuffer#0 under=all n=2
write_flatbuffer(IPCArray(elem(children(self.0)), loop{[cumulative_nbuffers(elem(children(self.0))) + loop] | [self.1 + {0 <- buffer(self.0) is None | 1 <- buffer(self.0) is Some}] | loop{[cumulative_nbuffers(elem(children(self.0))) + loop] | [self.1 + {0 <- buffer(self.0) is None | 1 <- buffer(self.0) is Some}]}}))
write_flatbuffer(statistics(self.0))
@ <vortex_serde::messages::IPCMessage as vortex_flatbuffers::WriteFlatBuffer>::write_flatbuffer args=self,fbb voc=write_flatbuffer,add_version,add_header_type,add_header calls=add_header n=1
add_header(MessageBuilder(mut, start_table({fbb.write_flatbuffer(self@Batch.0) <- self is Batch | fbb.write_flatbuffer(self@Page.0) <- self is Page | fbb.write_flatbuffer(self@Schema.0) <- self is Schema})).add_version(default(vortex_flatbuffers::message::MessageVersion)).add_header_type({MessageHeader(1) <- self is Schema | MessageHeader(2) <- self is Batch | MessageHeader(3) <- self is Page}), {as_union_value(write_flatbuffer(self@Batch.0, fbb)) <- self is Batch | as_union_value(write_flatbuffer(self@Page.0, fbb)) <- self is Page | as_union_value(write_flatbuffer(self@Schema.0, fbb)) <- self is Schema})
@ <vortex_serde::messages::IPCMessage as vortex_flatbuffers::WriteFlatBuffer>::write_flatbuffer args=self,fbb voc=write_flatbuffer,add_version,add_header_type,add_header calls=add_header_type#1 under=all n=1
add_header_type({MessageHeader(1) <- self is Schema | MessageHeader(2) <- self is Batch | MessageHeader(3) <- self is Page})
@ <vortex_serde::messages::IPCBatch as vortex_flatbuffers::WriteFlatBuffer>::write_flatbuffer args=self,fbb flat=1
create(fbb, BatchArgs(write_flatbuffer(IPCArray(self.0, 0), fbb), len(self.0), create_vector(fbb, each(Buffer.new(loop{0 | [and(!63, [len(buffer(elem(depth_first_traversal(self.0)))) + 63]) + loop] <- buffer(elem(depth_first_traversal(self.0))) is Some}, as_u16([and(!63, [len(buffer(elem(depth_first_traversal(self.0)))) + 63]) - len(buffer(elem(depth_first_traversal(self.0))))]), Compression(0)))), loop{0 | [and(!63, [len(buffer(elem(depth_first_traversal(self.0)))) + 63]) + loop] <- buffer(elem(depth_first_traversal(self.0))) is Some}))
@ <vortex::Array>::all_buffer_offsets args=self,a
each(loop{0 | [and(![a - 1], [a + len({elem(ArrayChildrenIterator([self]))@Data.0.buffer <- elem(ArrayChildrenIterator([self])) is Data | index(elem(ArrayChildrenIterator([self]))@View.0.buffers, get(Table.new(elem(ArrayChildrenIterator([self]))@View.0.flatbuffer@*, elem(ArrayChildrenIterator([self]))@View.0.flatbuffer_loc), 6, None)) <- elem(ArrayChildrenIterator([self])) is View}) - 1]) + loop]}).push(loop{0 | [and(![a - 1], [a + len({elem(ArrayChildrenIterator([self]))@Data.0.buffer <- elem(ArrayChildrenIterator([self])) is Data | index(elem(ArrayChildrenIterator([self]))@View.0.buffers, get(Table.new(elem(ArrayChildrenIterator([self]))@View.0.flatbuffer@*, elem(ArrayChildrenIterator([self]))@View.0.flatbuffer_loc), 6, None)) <- elem(ArrayChildrenIterator([self])) is View}) - 1]) + loop]})
'''
STREAM = r'''
@ <vortex_serde::stream_writer::StreamArrayWriter<W>>::array_layouts args=self
self.array_layouts
@ <vortex_serde::stream_writer::StreamArrayWriter<W>>::into_inner args=self
self.msgs.write
@ <vortex_serde::stream_writer::StreamArrayWriter<W>>::new args=self
StreamArrayWriter(MessageWriter(self, 0, 64, Vec.new()), Vec.new(), Vec.new())
@ <vortex_serde::stream_writer::StreamArrayWriter<W>>::page_ranges args=self
self.page_ranges
@ <vortex_serde::stream_writer::StreamArrayWriter<W>>::write_array args=self,x flat=1
or(await(write_array_stream(self, array_stream(TryFrom.try_from(x)))), await(write_array_stream(self, into_array_stream(x))))
@ <vortex_serde::stream_writer::StreamArrayWriter<W>>::write_array_chunks args=self,x voc=tell,write_dtype,write_batch,write_page,write_message,write_array_chunks,write_array_stream,array_stream,into_array_stream flat=1
ChunkOffsets(loop{[tell(self.msgs)] | each(tell(self.msgs))}, loop{[0] | each([len(await(try_next(x))) + sum(each(len(await(try_next(x)))))])})
@ <vortex_serde::stream_writer::StreamArrayWriter<W>>::write_array_stream args=self,x flat=1
with(self.write_array_chunks(x).array_layouts=self.write_array_chunks(x).array_layouts.push(ArrayLayout(await(write_dtype(self, dtype(x))), await(write_array_chunks(self, x)))))
@ <vortex_serde::stream_writer::StreamArrayWriter<W>>::write_dtype args=self,x voc=tell,write_dtype,write_batch,write_page,write_message,write_array_chunks,write_array_stream,array_stream,into_array_stream flat=1
ByteRange(tell(self.msgs), tell(self.msgs))
@ <vortex_serde::stream_writer::StreamArrayWriter<W>>::write_page args=self,x voc=tell,write_dtype,write_batch,write_page,write_message,write_array_chunks,write_array_stream,array_stream,into_array_stream flat=1
with(with(self.msgs=self.msgs).page_ranges=self.page_ranges.push(ByteRange(tell(self.msgs), tell(self.msgs))))
@ <vortex_serde::stream_writer::StreamArrayWriter<W>>::write_array_chunks args=self,x seq=write_batch|write_dtype|tell|write_page|write_message
tell(self.msgs) ; write_batch(self.msgs, await(try_next(x)))
write_batch(self.msgs, await(try_next(x))) ; tell(self.msgs)
@ <vortex_serde::stream_writer::StreamArrayWriter<W>>::write_array_stream args=self,x voc=write_batch,write_page,write_message,tell,write_dtype,write_array_chunks seq=write_batch|write_dtype|tell|write_page|write_message
write_dtype(self, dtype(x))
@ <vortex_serde::stream_writer::StreamArrayWriter<W>>::write_dtype args=self,x seq=write_batch|write_dtype|tell|write_page|write_message
tell(self.msgs) ; write_dtype(self.msgs, x)
write_dtype(self.msgs, x) ; tell(self.msgs)
@ <vortex_serde::stream_writer::StreamArrayWriter<W>>::write_page args=self,x seq=write_batch|write_dtype|tell|write_page|write_message
tell(self.msgs) ; write_page(self.msgs, x)
write_page(self.msgs, x) ; tell(self.msgs)
@ <vortex_serde::stream_writer::ByteRange>::is_empty
Eq(self.begin, self.end)
@ <vortex_serde::stream_writer::ByteRange>::len
[-self.begin + self.end]
@ <vortex_serde::stream_writer::ByteRange>::new
ByteRange(begin, end)
@ <vortex_serde::stream_writer::ChunkOffsets>::new
ChunkOffsets(byte_offsets, row_offsets)
@ <vortex_serde::stream_reader::StreamArrayReader<R>>::array_stream args=self,x flat=1
array_stream(self.msgs, self.ctx, dtype(self))
@ <vortex_serde::stream_reader::StreamArrayReader<R>>::into_array_stream args=self,x flat=1
into_array_stream(self.msgs, self.ctx, dtype(self))
@ <vortex_serde::stream_reader::StreamArrayReader<R>>::load_dtype args=self,x flat=1
with(with(self.msgs=self.msgs.read_dtype()).dtype=await(read_dtype(self.msgs)))
@ <vortex_serde::stream_reader::StreamArrayReader<R>>::next_page args=self,x flat=1
await(maybe_read_page(self.msgs))
@ <vortex_serde::stream_reader::StreamArrayReader<R>>::page_stream args=self,x flat=1
try_unfold(self, fn((await(next_page($0)), $0.next_page())))
@ <vortex_serde::stream_reader::StreamArrayReader<R>>::try_new args=self,x flat=1
StreamArrayReader(await(MessageReader.try_new(self)), x, None)
@ <vortex_serde::stream_reader::StreamArrayReader<R>>::with_dtype args=self,x flat=1
with(self.dtype=x)
@ <vortex_serde::dtype_reader::DTypeReader<R>>::into_inner args=self flat=1
self.msgs.read
@ <vortex_serde::dtype_reader::DTypeReader<R>>::new args=self flat=1
DTypeReader(await(MessageReader.try_new(self)))
@ <vortex_serde::dtype_reader::DTypeReader<R>>::read_dtype args=self flat=1
await(read_dtype(self.msgs))
@ <vortex_serde::message_reader::MessageReader<R>>::array_stream args=self,ctx,dtype flat=1
ArrayStreamAdapter(dtype, try_unfold(State(mut, ctx, dtype), fn((await(maybe_read_chunk($0.msgs, $0.ctx, dtype($0))), with($0.msgs=$0.msgs.maybe_read_chunk($0.ctx, dtype($0)))))))
@ <vortex_serde::message_reader::MessageReader<R>>::into_array_stream args=self,ctx,dtype flat=1
ArrayStreamAdapter(dtype, try_unfold(State(self, ctx, dtype), fn((await(maybe_read_chunk($0.msgs, $0.ctx, dtype($0))), with($0.msgs=$0.msgs.maybe_read_chunk($0.ctx, dtype($0)))))))
'''
RANDOM = r'''
@ <vortex_serde::chunked_reader::ChunkedArrayReader<R>>::array_stream args=self,a,b,c,d flat=1
into_array_stream(with(await(StreamArrayReader.try_new(Cursor.new(self.read).set_position(TryFrom.try_from(scalar_at(self.byte_offsets, 0))), self.context)).dtype=dtype(self)))
@ <vortex_serde::chunked_reader::ChunkedArrayReader<R>>::take_from_chunk args=self,a,b,c,d flat=1
take_rows(into_array_stream(with(await(StreamArrayReader.try_new(await(read_at_into(self.read, b.start, BytesMut.with_capacity().set_len([b.end - b.start]))), self.context)).dtype=dtype(self))), subtract_scalar(slice(a, search_sorted(a, c.start, Left)@*, search_sorted(a, c.end, Right)@*), cast(Scalar(dtype(), c.start), dtype(slice(a, search_sorted(a, c.start, Left)@*, search_sorted(a, c.end, Right)@*)))))
@ <vortex_serde::chunked_reader::ChunkedArrayReader<R>>::take_from_chunk args=self,a,b,c,d calls=read_at_into voc=MessageReader.try_new,StreamArrayReader.try_new,into_array_stream,search_sorted,take_rows,subtract_scalar,slice,scalar_at,cast n=1
read_at_into(self.read, b.start, BytesMut.with_capacity().set_len([b.end - b.start]))
@ <vortex_serde::chunked_reader::ChunkedArrayReader<R>>::coalesce_chunks args=self,a,b,c,d flat=1
each([elem(a)])
@ <vortex_serde::chunked_reader::ChunkedArrayReader<R>>::nchunks args=self,a,b,c,d flat=1
len(self.byte_offsets)
@ <vortex_serde::chunked_reader::ChunkedArrayReader<R>>::take_rows args=self,a,b,c,d flat=1
await(take_rows_strict_sorted(self, a))
@ <vortex_serde::chunked_reader::ChunkedArrayReader<R>>::take_rows_strict_sorted args=self,a,b,c,d flat=1
ChunkedArray.try_new(await(try_flatten(buffered(each(take_from_chunk(self, a, index(maybe_null_slice(take(self.byte_offsets, PrimitiveArray.from_vec(each(first([elem(find_chunks(self.row_offsets, a))]).chunk_idx), NonNullable))), pos(each([elem(find_chunks(self.row_offsets, a))])))..index(maybe_null_slice(take(self.byte_offsets, PrimitiveArray.from_vec(each([last([elem(find_chunks(self.row_offsets, a))]).chunk_idx + 1]), NonNullable))), pos(each([elem(find_chunks(self.row_offsets, a))]))), index(maybe_null_slice(take(self.row_offsets, PrimitiveArray.from_vec(each(first([elem(find_chunks(self.row_offsets, a))]).chunk_idx), NonNullable))), pos(each([elem(find_chunks(self.row_offsets, a))])))..index(maybe_null_slice(take(self.row_offsets, PrimitiveArray.from_vec(each([last([elem(find_chunks(self.row_offsets, a))]).chunk_idx + 1]), NonNullable))), pos(each([elem(find_chunks(self.row_offsets, a))]))))), 10))), dtype(self))
@ <vortex_serde::chunked_reader::ChunkedArrayReader<R>>::try_new args=self,a,b,c,d flat=1
ChunkedArrayReader(self, a, b, c, d)
@ <vortex_serde::chunked_reader::ChunkedArrayReader<R>>::validate args=self,a,b,c,d flat=1
()
@ vortex_serde::chunked_reader::take_rows::find_chunks args=row_offsets,indices
each(index(loop{HashMap.new() | loop.entry(as_u32(saturating_sub(to_ends_index(search_sorted(try_cast(row_offsets, Primitive(U64, NonNullable)), elem(maybe_null_slice(try_cast(indices, Primitive(U64, NonNullable)))), Right), len(try_cast(row_offsets, Primitive(U64, NonNullable)))), 1)))}, elem(sorted(keys(loop{HashMap.new() | loop.entry(as_u32(saturating_sub(to_ends_index(search_sorted(try_cast(row_offsets, Primitive(U64, NonNullable)), elem(maybe_null_slice(try_cast(indices, Primitive(U64, NonNullable)))), Right), len(try_cast(row_offsets, Primitive(U64, NonNullable)))), 1)))})))))
@ <vortex::stream::take_rows::TakeRows<R> as futures_core::stream::Stream>::poll_next args=self,cx voc=search_sorted,slice,take,subtract_scalar,into_primitive calls=search_sorted loops=0 n=2
search_sorted(L, L, Left)
search_sorted(L, [L + len(branch(poll_next(L, L))@Ready.0)], Left)
@ <vortex::stream::take_rows::TakeRows<R> as futures_core::stream::Stream>::poll_next args=self,cx voc=search_sorted,slice,take,subtract_scalar,into_primitive calls=subtract_scalar loops=0 n=8
subtract_scalar(slice(L, search_sorted(L, L, Left)@*, search_sorted(L, [L + len(branch(poll_next(L, L))@Ready.0)], Left)@*), Scalar(dtype(), L))
subtract_scalar(slice(L, search_sorted(L, L, Left)@*, search_sorted(L, [L + len(branch(poll_next(L, L))@Ready.0)], Left)@*), Scalar(dtype(), as_i16(L)))
subtract_scalar(slice(L, search_sorted(L, L, Left)@*, search_sorted(L, [L + len(branch(poll_next(L, L))@Ready.0)], Left)@*), Scalar(dtype(), as_i32(L)))
subtract_scalar(slice(L, search_sorted(L, L, Left)@*, search_sorted(L, [L + len(branch(poll_next(L, L))@Ready.0)], Left)@*), Scalar(dtype(), as_i8(L)))
subtract_scalar(slice(L, search_sorted(L, L, Left)@*, search_sorted(L, [L + len(branch(poll_next(L, L))@Ready.0)], Left)@*), Scalar(dtype(), as_u16(L)))
subtract_scalar(slice(L, search_sorted(L, L, Left)@*, search_sorted(L, [L + len(branch(poll_next(L, L))@Ready.0)], Left)@*), Scalar(dtype(), as_u32(L)))
subtract_scalar(slice(L, search_sorted(L, L, Left)@*, search_sorted(L, [L + len(branch(poll_next(L, L))@Ready.0)], Left)@*), Scalar(dtype(), as_u8(L)))
@ <vortex::stream::take_rows::TakeRows<R> as futures_core::stream::Stream>::poll_next args=self,cx voc=search_sorted,slice,take,subtract_scalar,into_primitive calls=slice under=all loops=0 n=1
slice(L, search_sorted(L, L, Left)@*, search_sorted(L, [L + len(branch(poll_next(L, L))@Ready.0)], Left)@*) <- !Eq(0, len(self.indices))
@ <vortex::stream::adapter::ArrayStreamAdapter<S> as vortex::stream::ArrayStream>::dtype args=self,a,b flat=1
dtype(self)
@ <vortex::stream::adapter::ArrayStreamAdapter<S>>::new args=self,a,b flat=1
ArrayStreamAdapter(self, a)
@ vortex::stream::ext::ArrayStreamExt::collect_chunked args=self,a,b flat=1
ChunkedArray.try_new(await(self), dtype(self))
@ vortex::stream::ext::ArrayStreamExt::take_rows args=self,a,b flat=1
ArrayStreamAdapter(dtype(self), TakeRows(self, a, 0))
@ <vortex::stream::adapter::ArrayStreamAdapter<S> as futures_core::stream::Stream>::poll_next args=self,a,b flat=1
poll_next(self.inner, a)
'''
def run(c):
    spec.run_tables(c, (('writer', WRITE), ('reader', READ), ('message', MSG), ('stream', STREAM), ('lookup', RANDOM),), 'must keep the stream format', r'vortex_serde::(message_writer|message_reader|stream_writer|stream_reader|dtype_reader|messages)::.*$', ('reader', 12))
