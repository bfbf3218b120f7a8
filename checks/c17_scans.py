from lib import *
import spec
ID = 'C17'
TITLE = 'Scans give back the projected, filtered rows'
RULE = "the normal form of every step of the scan over a file's layout tree is compared with the form that denotes the scan: the transition relation of the batch stream (one turn of its loop, field by field, per state), the readers of each layout, batch buffering, the row filter, the message cache and the reader's construction"
READERS = r'''
@ <vortex_serde::layouts::read::buffered::BufferedReader>::buffer args=self flat=1 loops=1
None <- !Lt(buffered_row_count(cur(self)), self.batch_size)
None <- pop_front(cur(self.layouts)) is None
read_next(pop_front(cur(self.layouts))) <- Lt(buffered_row_count(cur(self)), self.batch_size) & pop_front(cur(self.layouts)) is Some
@ <vortex_serde::layouts::read::buffered::BufferedReader>::buffer args=self steps=self
.arrays = or(cur(self.arrays).push_back(read_next(pop_front(cur(self.layouts)))@Batch.0), cur(self.arrays))
.layouts = cur(self.layouts).pop_front() <- read_next(pop_front(cur(self.layouts))) is None
.layouts = cur(self.layouts).pop_front().push_front(pop_front(cur(self.layouts)).read_next()) <- read_next(pop_front(cur(self.layouts))) is Some
@ <vortex_serde::layouts::read::buffered::BufferedReader>::buffer args=self voc=read_next,buffered_row_count calls=push_front under=all loops=1 n=1
push_front(cur(self.layouts).pop_front(), pop_front(cur(self.layouts)).read_next()) <- Lt(buffered_row_count(cur(self)), self.batch_size) & pop_front(cur(self.layouts)) is Some
@ <vortex_serde::layouts::read::buffered::BufferedReader>::buffer args=self voc=read_next,buffered_row_count calls=push_back under=all loops=1 n=1
push_back(cur(self.arrays), read_next(pop_front(cur(self.layouts)))@Batch.0) <- Lt(buffered_row_count(cur(self)), self.batch_size) & pop_front(cur(self.layouts)) is Some
@ <vortex_serde::layouts::read::buffered::BufferedReader>::read args=self flat=1 loops=1
Batch(ChunkedArray.try_new(cur(Vec.new()), dtype(index(cur(Vec.new()), 0)))) <- !Eq(0, len(self)) & buffer(self) is None & len(cur(Vec.new())) != 0|1
None <- Eq(0, len(self))
or(buffer(self), Batch(pop(cur(Vec.new())))) <- !Eq(0, len(self))
@ <vortex_serde::layouts::read::buffered::BufferedReader>::read args=self voc=buffer,buffered_row_count,is_empty calls=slice under=all each=1 loops=1 n=2
slice(pop_front(cur(self.buffer().arrays)), 0, cur({min(buffered_row_count(self.buffer()), self.buffer().batch_size) <- Eq(0, len(self.buffer().layouts)) | self.buffer().batch_size <- !Eq(0, len(self.buffer().layouts))})) <- !Eq(0, cur({min(buffered_row_count(self.buffer()), self.buffer().batch_size) <- Eq(0, len(self.buffer().layouts)) | self.buffer().batch_size <- !Eq(0, len(self.buffer().layouts))})) & !Eq(0, len(self)) & Lt(cur({min(buffered_row_count(self.buffer()), self.buffer().batch_size) <- Eq(0, len(self.buffer().layouts)) | self.buffer().batch_size <- !Eq(0, len(self.buffer().layouts))}), len(pop_front(cur(self.buffer().arrays)))) & buffer(self) is None & pop_front(cur(self.buffer().arrays)) is Some
slice(pop_front(cur(self.buffer().arrays)), cur({min(buffered_row_count(self.buffer()), self.buffer().batch_size) <- Eq(0, len(self.buffer().layouts)) | self.buffer().batch_size <- !Eq(0, len(self.buffer().layouts))}), len(pop_front(cur(self.buffer().arrays)))) <- !Eq(0, cur({min(buffered_row_count(self.buffer()), self.buffer().batch_size) <- Eq(0, len(self.buffer().layouts)) | self.buffer().batch_size <- !Eq(0, len(self.buffer().layouts))})) & !Eq(0, len(self)) & Lt(cur({min(buffered_row_count(self.buffer()), self.buffer().batch_size) <- Eq(0, len(self.buffer().layouts)) | self.buffer().batch_size <- !Eq(0, len(self.buffer().layouts))}), len(pop_front(cur(self.buffer().arrays)))) & buffer(self) is None & pop_front(cur(self.buffer().arrays)) is Some
@ <vortex_serde::layouts::read::buffered::BufferedReader>::read args=self voc=buffer,buffered_row_count,is_empty calls=push#1 under=all each=1 loops=1 n=2
push(pop_front(cur(self.buffer().arrays))) <- !Eq(0, cur({min(buffered_row_count(self.buffer()), self.buffer().batch_size) <- Eq(0, len(self.buffer().layouts)) | self.buffer().batch_size <- !Eq(0, len(self.buffer().layouts))})) & !Eq(0, len(self)) & !Lt(cur({min(buffered_row_count(self.buffer()), self.buffer().batch_size) <- Eq(0, len(self.buffer().layouts)) | self.buffer().batch_size <- !Eq(0, len(self.buffer().layouts))}), len(pop_front(cur(self.buffer().arrays)))) & buffer(self) is None & pop_front(cur(self.buffer().arrays)) is Some
push(slice(pop_front(cur(self.buffer().arrays)), 0, cur({min(buffered_row_count(self.buffer()), self.buffer().batch_size) <- Eq(0, len(self.buffer().layouts)) | self.buffer().batch_size <- !Eq(0, len(self.buffer().layouts))}))) <- !Eq(0, cur({min(buffered_row_count(self.buffer()), self.buffer().batch_size) <- Eq(0, len(self.buffer().layouts)) | self.buffer().batch_size <- !Eq(0, len(self.buffer().layouts))})) & !Eq(0, len(self)) & Lt(cur({min(buffered_row_count(self.buffer()), self.buffer().batch_size) <- Eq(0, len(self.buffer().layouts)) | self.buffer().batch_size <- !Eq(0, len(self.buffer().layouts))}), len(pop_front(cur(self.buffer().arrays)))) & buffer(self) is None & pop_front(cur(self.buffer().arrays)) is Some
@ <vortex_serde::layouts::read::buffered::BufferedReader>::read args=self voc=buffer,buffered_row_count,is_empty calls=push_front#1 under=all loops=1 n=1
push_front(slice(pop_front(cur(self.buffer().arrays)), cur({min(buffered_row_count(self.buffer()), self.buffer().batch_size) <- Eq(0, len(self.buffer().layouts)) | self.buffer().batch_size <- !Eq(0, len(self.buffer().layouts))}), len(pop_front(cur(self.buffer().arrays))))) <- !Eq(0, cur({min(buffered_row_count(self.buffer()), self.buffer().batch_size) <- Eq(0, len(self.buffer().layouts)) | self.buffer().batch_size <- !Eq(0, len(self.buffer().layouts))})) & !Eq(0, len(self)) & Lt(cur({min(buffered_row_count(self.buffer()), self.buffer().batch_size) <- Eq(0, len(self.buffer().layouts)) | self.buffer().batch_size <- !Eq(0, len(self.buffer().layouts))}), len(pop_front(cur(self.buffer().arrays)))) & buffer(self) is None & pop_front(cur(self.buffer().arrays)) is Some
@ <vortex_serde::layouts::read::layouts::chunked::ChunkedLayout as vortex_serde::layouts::read::LayoutReader>::read_next args=self errs=1
or(read(self.reader), read_next(with(self.reader=BufferedReader(each(read_layout(self.layout_builder, self.fb_bytes, loc(nth((pos(get(Table.new(self.fb_bytes, self.fb_loc), 8, None)), elem(get(Table.new(self.fb_bytes, self.fb_loc), 8, None))), {0 <- !has_metadata(self) | 1 <- has_metadata(self)}).1._tab), self.scan, relative(self.message_cache, nth((pos(get(Table.new(self.fb_bytes, self.fb_loc), 8, None)), elem(get(Table.new(self.fb_bytes, self.fb_loc), 8, None))), {0 <- !has_metadata(self) | 1 <- has_metadata(self)}).0, dtype(self.message_cache)))), default(alloc::collections::vec_deque::VecDeque<vortex::Array, alloc::alloc::Global>), self.scan.batch_size))))
@ <vortex_serde::layouts::read::buffered::BufferedReader>::read args=self voc=buffer steps=.*batch_size.*
[cur({min(buffered_row_count(self.buffer()), self.buffer().batch_size) <- Eq(0, len(self.buffer().layouts)) | self.buffer().batch_size <- !Eq(0, len(self.buffer().layouts))}) - len(pop_front(cur(self.buffer().arrays)))] <- !Lt(cur({min(buffered_row_count(self.buffer()), self.buffer().batch_size) <- Eq(0, len(self.buffer().layouts)) | self.buffer().batch_size <- !Eq(0, len(self.buffer().layouts))}), len(pop_front(cur(self.buffer().arrays))))
[cur({min(buffered_row_count(self.buffer()), self.buffer().batch_size) <- Eq(0, len(self.buffer().layouts)) | self.buffer().batch_size <- !Eq(0, len(self.buffer().layouts))}) - len(slice(pop_front(cur(self.buffer().arrays)), 0, cur({min(buffered_row_count(self.buffer()), self.buffer().batch_size) <- Eq(0, len(self.buffer().layouts)) | self.buffer().batch_size <- !Eq(0, len(self.buffer().layouts))})))] <- Lt(cur({min(buffered_row_count(self.buffer()), self.buffer().batch_size) <- Eq(0, len(self.buffer().layouts)) | self.buffer().batch_size <- !Eq(0, len(self.buffer().layouts))}), len(pop_front(cur(self.buffer().arrays))))
@ <vortex_serde::layouts::read::batch::BatchReader>::new args=self,x
BatchReader(self, x, from_elem(None, len(x)))
@ <vortex_serde::layouts::read::batch::BatchReader>::read args=self flat=1 loops=1
Batch(StructArray.from_fields(zip(self.names, each(elem(self.arrays.iter_mut()))))) <- Eq(0, len(cur(Vec.new()))) & next(filtered(enumerate(iter_mut(self.arrays)), isNone(elem(iter_mut(self.arrays))))) is None
None <- next(filtered(enumerate(iter_mut(self.arrays)), isNone(elem(iter_mut(self.arrays))))) is Some
ReadMore(cur(Vec.new())) <- !Eq(0, len(cur(Vec.new()))) & next(filtered(enumerate(iter_mut(self.arrays)), isNone(elem(iter_mut(self.arrays))))) is None
@ <vortex_serde::layouts::read::batch::BatchReader>::read args=self voc=read_next calls=read_next under=all loops=1 n=1
read_next(index(cur(self.children), pos(iter_mut(self.arrays))))
@ <vortex_serde::layouts::read::batch::BatchReader>::read args=self voc=read_next calls=extend under=all loops=1 n=1
extend(cur(Vec.new()), read_next(index(cur(self.children), pos(iter_mut(self.arrays))))@ReadMore.0)
@ <vortex_serde::layouts::read::batch::BatchReader>::read args=self voc=read_next steps=self
.arrays = self.arrays.iter_mut()
.children = seti(cur(self.children), pos(iter_mut(self.arrays)), index(cur(self.children), pos(iter_mut(self.arrays))).read_next())
@ <vortex_serde::layouts::read::layouts::chunked::ChunkedLayout>::flatbuffer args=self,a,b,c,d
Layout(Table.new(self.fb_bytes, self.fb_loc))
@ <vortex_serde::layouts::read::layouts::chunked::ChunkedLayout>::has_metadata args=self,a,b,c,d
Eq(Eq(0, index(bytes(metadata(Layout(Table.new(self.fb_bytes, self.fb_loc)))), 0)), False)
@ <vortex_serde::layouts::read::layouts::chunked::ChunkedLayout>::new args=self,a,b,c,d
ChunkedLayout(self, a, b, c, d, None)
@ <vortex_serde::layouts::read::layouts::column::ColumnLayout>::flatbuffer args=self,a,b,c,d
Layout(Table.new(self.fb_bytes, self.fb_loc))
@ <vortex_serde::layouts::read::layouts::column::ColumnLayout>::lazy_dtype args=self,a,b,c,d
LazyDeserializedDType(Serialized(dtype(self.message_cache).inner@Serialized.0, OnceCell.new(), Flat(self.scan.projection@Flat.0))) <- dtype(self.message_cache).inner is Serialized & self.scan.projection is Flat
LazyDeserializedDType(Value(Struct(StructDType(each(index(dtype(self.message_cache).inner@Value.0@Struct.0.names, {elem(self.scan.projection@Flat.0)@Index.0 <- elem(self.scan.projection@Flat.0) is Index | iposition(dtype(self.message_cache).inner@Value.0@Struct.0.names, Eq(elem(dtype(self.message_cache).inner@Value.0@Struct.0.names), elem(self.scan.projection@Flat.0)@Name.0)) <- elem(self.scan.projection@Flat.0) is Name})), each(index(dtype(self.message_cache).inner@Value.0@Struct.0.dtypes, {elem(self.scan.projection@Flat.0)@Index.0 <- elem(self.scan.projection@Flat.0) is Index | iposition(dtype(self.message_cache).inner@Value.0@Struct.0.names, Eq(elem(dtype(self.message_cache).inner@Value.0@Struct.0.names), elem(self.scan.projection@Flat.0)@Name.0)) <- elem(self.scan.projection@Flat.0) is Name}))), dtype(self.message_cache).inner@Value.0@Struct.1))) <- dtype(self.message_cache).inner is Value & self.scan.projection is Flat
dtype(self.message_cache) <- self.scan.projection is All
@ <vortex_serde::layouts::read::layouts::column::ColumnLayout>::new args=self,a,b,c,d
ColumnLayout(self, a, b, c, d, None)
@ <vortex_serde::layouts::read::layouts::flat::FlatLayout>::new args=self,a,b,c,d
FlatLayout(self, a, b, c, False, None)
@ <vortex_serde::layouts::read::layouts::flat::FlatLayout>::own_message args=self,a,b,c,d
(self.cache.path.extend_from_slice([]), self.range)
@ <vortex_serde::layouts::read::layouts::inline_dtype::InlineDTypeLayout>::flatbuffer args=self,a,b,c,d
Layout(Table.new(self.fb_bytes, self.fb_loc))
@ <vortex_serde::layouts::read::layouts::inline_dtype::InlineDTypeLayout>::new args=self,a,b,c,d
InlineDTypeLayout(self, a, b, c, d, None)
@ <vortex_serde::layouts::read::layouts::chunked::ChunkedLayout as vortex_serde::layouts::read::LayoutReader>::read_next args=self flat=1
or(read(self.reader), read_next(with(self.reader=BufferedReader.new(each(read_layout(self.layout_builder, self.fb_bytes, loc(nth((pos(get(Table.new(self.fb_bytes, self.fb_loc), 8, None)), elem(get(Table.new(self.fb_bytes, self.fb_loc), 8, None))), {0 <- !has_metadata(self) | 1 <- has_metadata(self)}).1._tab), self.scan, relative(self.message_cache, nth((pos(get(Table.new(self.fb_bytes, self.fb_loc), 8, None)), elem(get(Table.new(self.fb_bytes, self.fb_loc), 8, None))), {0 <- !has_metadata(self) | 1 <- has_metadata(self)}).0, dtype(self.message_cache)))), self.scan.batch_size))))
@ <vortex_serde::layouts::read::layouts::chunked::ChunkedLayout as vortex_serde::layouts::read::LayoutReader>::read_next args=self voc=read_layout,BufferedReader.read,relative,has_metadata calls=read_layout n=1
read_layout(self.layout_builder, self.fb_bytes, loc(nth((pos(get(Table.new(self.fb_bytes, self.fb_loc), 8, None)), elem(get(Table.new(self.fb_bytes, self.fb_loc), 8, None))), {0 <- !has_metadata(self) | 1 <- has_metadata(self)}).1._tab), self.scan, relative(self.message_cache, nth((pos(get(Table.new(self.fb_bytes, self.fb_loc), 8, None)), elem(get(Table.new(self.fb_bytes, self.fb_loc), 8, None))), {0 <- !has_metadata(self) | 1 <- has_metadata(self)}).0, dtype(self.message_cache)))
@ <vortex_serde::layouts::read::layouts::chunked::ChunkedLayout as vortex_serde::layouts::read::LayoutReader>::read_next args=self voc=read_layout,BufferedReader.read,relative,has_metadata calls=skip#1 n=1
skip({0 <- !has_metadata(self) | 1 <- has_metadata(self)})
@ <vortex_serde::layouts::read::layouts::column::ColumnLayout>::read_child args=self,idx,children,dtype
read_layout(self.layout_builder, self.fb_bytes, loc(get(children, idx)._tab), with(self.scan.projection=All), relative(self.message_cache, idx, LazyDeserializedDType(Value(dtype))))
@ <vortex_serde::layouts::read::layouts::column::ColumnLayout as vortex_serde::layouts::read::LayoutReader>::read_next args=self voc=read_child,BatchReader.new,BatchReader.read,lazy_dtype,resolve_field,value calls=read_child n=2
read_child(self, pos(get(Table.new(self.fb_bytes, self.fb_loc), 8, None)), get(Table.new(self.fb_bytes, self.fb_loc), 8, None), elem(value(lazy_dtype(self))@Struct.0.dtypes))
read_child(self, resolve_field(lazy_dtype(self), elem(self.scan.projection@Flat.0)), get(Table.new(self.fb_bytes, self.fb_loc), 8, None), elem(value(lazy_dtype(self))@Struct.0.dtypes))
@ <vortex_serde::layouts::read::layouts::column::ColumnLayout as vortex_serde::layouts::read::LayoutReader>::read_next args=self voc=read_child,BatchReader.new,BatchReader.read,lazy_dtype,resolve_field,value calls=new n=2
new(self.fb_bytes, self.fb_loc)
new(value(lazy_dtype(self))@Struct.0.names, {each(read_child(self, pos(get(Table.new(self.fb_bytes, self.fb_loc), 8, None)), get(Table.new(self.fb_bytes, self.fb_loc), 8, None), elem(value(lazy_dtype(self))@Struct.0.dtypes))) <- self.scan.projection is All | each(read_child(self, resolve_field(lazy_dtype(self), elem(self.scan.projection@Flat.0)), get(Table.new(self.fb_bytes, self.fb_loc), 8, None), elem(value(lazy_dtype(self))@Struct.0.dtypes))) <- self.scan.projection is Flat})
@ <vortex_serde::layouts::read::layouts::column::ColumnLayout as vortex_serde::layouts::read::LayoutReader>::read_next args=self flat=1
or(read(self.reader), read_next(with(self.reader=BatchReader.new(value(lazy_dtype(self))@Struct.0.names, {each(read_child(self, pos(get(Table.new(self.fb_bytes, self.fb_loc), 8, None)), get(Table.new(self.fb_bytes, self.fb_loc), 8, None), elem(value(lazy_dtype(self))@Struct.0.dtypes))) <- self.scan.projection is All | each(read_child(self, resolve_field(lazy_dtype(self), elem(self.scan.projection@Flat.0)), get(Table.new(self.fb_bytes, self.fb_loc), 8, None), elem(value(lazy_dtype(self))@Struct.0.dtypes))) <- self.scan.projection is Flat}))))
@ <vortex_serde::layouts::read::layouts::flat::FlatLayout>::array_from_bytes args=self,buf
into_array(loop{ArrayBufferReader.new() | loop}.read(loop{Bytes.new() | split_to(loop{buf | loop.split_to(read(loop{ArrayBufferReader.new() | loop}, loop))}, read(loop{ArrayBufferReader.new() | loop}, loop))}), self.ctx, value(dtype(self.cache)))
@ <vortex_serde::layouts::read::layouts::flat::FlatLayout>::array_from_bytes args=self,buf seq=read|split_to|into_array
read(loop{ArrayBufferReader.new() | loop.read(loop{Bytes.new() | split_to(loop{buf | loop.split_to(read(loop, loop))}, read(loop, loop))})}, loop{Bytes.new() | split_to(loop{buf | loop.split_to(read(loop{ArrayBufferReader.new() | loop.read(loop)}, loop))}, read(loop{ArrayBufferReader.new() | loop.read(loop)}, loop))}) ; into_array(ArrayBufferReader.new().read(loop{Bytes.new() | split_to(loop{buf | loop.split_to(read(ArrayBufferReader.new(), loop))}, read(ArrayBufferReader.new(), loop))}), self.ctx, value(dtype(self.cache)))
read(loop{ArrayBufferReader.new() | loop.read(loop{Bytes.new() | split_to(loop{buf | loop.split_to(read(loop, loop))}, read(loop, loop))})}, loop{Bytes.new() | split_to(loop{buf | loop.split_to(read(loop{ArrayBufferReader.new() | loop.read(loop)}, loop))}, read(loop{ArrayBufferReader.new() | loop.read(loop)}, loop))}) ; split_to(loop{buf | loop.split_to(read(ArrayBufferReader.new(), loop{Bytes.new() | split_to(loop, loop)}))}, read(ArrayBufferReader.new(), loop{Bytes.new() | split_to(loop{buf | loop.split_to(loop)}, loop)}))
@ <vortex_serde::layouts::read::layouts::flat::FlatLayout as vortex_serde::layouts::read::LayoutReader>::read_next args=self flat=1
None <- self.done
or(Batch({self.cached_array <- !Lt(self.scan.batch_size, len(self.cached_array)) | slice(self.cached_array, 0, min(len(self.cached_array), self.scan.batch_size)) <- Lt(self.scan.batch_size, len(self.cached_array))}), or(read_next(with(self.cached_array=array_from_bytes(with(self.cached_array=None), get(self.cache, [])))), ReadMore([own_message(with(self.cached_array=None))]))) <- !self.done
@ <vortex_serde::layouts::read::layouts::flat::FlatLayout as vortex_serde::layouts::read::LayoutReader>::read_next args=self out=1
.range = self.range
.range = with(self.cached_array=array_from_bytes(with(self.cached_array=None), get(self.cache, []))).read_next().range <- !self.done & get(self.cache, []) is Some & self.cached_array is None
.scan = self.scan
.scan = with(self.cached_array=array_from_bytes(with(self.cached_array=None), get(self.cache, []))).read_next().scan <- !self.done & get(self.cache, []) is Some & self.cached_array is None
.ctx = self.ctx
.ctx = with(self.cached_array=array_from_bytes(with(self.cached_array=None), get(self.cache, []))).read_next().ctx <- !self.done & get(self.cache, []) is Some & self.cached_array is None
.cache = self.cache
.cache = with(self.cached_array=array_from_bytes(with(self.cached_array=None), get(self.cache, []))).read_next().cache <- !self.done & get(self.cache, []) is Some & self.cached_array is None
.done = True <- !Lt(self.scan.batch_size, len(self.cached_array)) & !self.done & self.cached_array is Some
.done = self.done <- Lt(self.scan.batch_size, len(self.cached_array))
.done = self.done <- self.cached_array is None
.done = self.done <- self.done
.done = with(self.cached_array=array_from_bytes(with(self.cached_array=None), get(self.cache, []))).read_next().done <- !self.done & get(self.cache, []) is Some & self.cached_array is None
.cached_array = None <- !self.done
.cached_array = self.cached_array <- self.done
.cached_array = slice(self.cached_array, min(len(self.cached_array), self.scan.batch_size), len(self.cached_array)) <- !self.done & Lt(self.scan.batch_size, len(self.cached_array)) & self.cached_array is Some
.cached_array = with(self.cached_array=array_from_bytes(with(self.cached_array=None), get(self.cache, []))).read_next().cached_array <- !self.done & get(self.cache, []) is Some & self.cached_array is None
@ <vortex_serde::layouts::read::layouts::inline_dtype::InlineDTypeLayout>::dtype args=self flat=1 errs=1
or(DType(TryFrom.try_from(dtype(Schema(get(root(get(self.message_cache, [0]))._tab, 8, None))))), ReadMore([(absolute_id(self.message_cache, [0]), ByteRange(begin(get(get(Table.new(self.fb_bytes, self.fb_loc), 6, None), 0)), end(get(get(Table.new(self.fb_bytes, self.fb_loc), 6, None), 0))))]))
@ <vortex_serde::layouts::read::layouts::inline_dtype::InlineDTypeLayout as vortex_serde::layouts::read::LayoutReader>::read_next args=self flat=1
ReadMore(dtype(self)@ReadMore.0) <- dtype(self) is ReadMore & self.child_layout is None
read_next(self.child_layout) <- self.child_layout is Some
read_next(with(self.child_layout=read_layout(self.layout_builder, self.fb_bytes, loc(get(get(Table.new(self.fb_bytes, self.fb_loc), 8, None), 0)._tab), self.scan, relative(self.message_cache, 1, LazyDeserializedDType(Value(dtype(self)@DType.0)))))) <- dtype(self) is DType & self.child_layout is None
@ <vortex_serde::layouts::read::layouts::inline_dtype::InlineDTypeLayout as vortex_serde::layouts::read::LayoutReader>::read_next args=self voc=read_layout,InlineDTypeLayout.dtype,relative calls=read_layout n=1
read_layout(self.layout_builder, self.fb_bytes, loc(get(get(Table.new(self.fb_bytes, self.fb_loc), 8, None), 0)._tab), self.scan, relative(self.message_cache, 1, LazyDeserializedDType(Value(dtype(self)@DType.0))))
@ <vortex_serde::layouts::read::batch::BatchReader>::read args=self stores=* loops=1
read_next(index(cur(self.children), pos(iter_mut(self.arrays))))@Batch.0
@ <vortex_serde::layouts::read::layouts::flat::FlatLayout as vortex_serde::layouts::read::LayoutReader>::read_next args=self stores=done loops=1
True <- !Lt(self.scan.batch_size, len(self.cached_array)) & !self.done & self.cached_array is Some
@ <vortex_serde::layouts::read::layouts::chunked::ChunkedLayout as vortex_serde::layouts::read::LayoutReader>::read_next args=self stores=reader loops=1
BufferedReader(each(read_layout(self.layout_builder, self.fb_bytes, loc(nth((pos(get(Table.new(self.fb_bytes, self.fb_loc), 8, None)), elem(get(Table.new(self.fb_bytes, self.fb_loc), 8, None))), {0 <- !has_metadata(self) | 1 <- has_metadata(self)}).1._tab), self.scan, relative(self.message_cache, nth((pos(get(Table.new(self.fb_bytes, self.fb_loc), 8, None)), elem(get(Table.new(self.fb_bytes, self.fb_loc), 8, None))), {0 <- !has_metadata(self) | 1 <- has_metadata(self)}).0, dtype(self.message_cache)))), default(alloc::collections::vec_deque::VecDeque<vortex::Array, alloc::alloc::Global>), self.scan.batch_size) <- self.reader is None
@ <vortex_serde::layouts::read::layouts::column::ColumnLayout as vortex_serde::layouts::read::LayoutReader>::read_next args=self stores=reader loops=1
BatchReader.new(value(lazy_dtype(self))@Struct.0.names, {each(read_child(self, pos(get(Table.new(self.fb_bytes, self.fb_loc), 8, None)), get(Table.new(self.fb_bytes, self.fb_loc), 8, None), elem(value(lazy_dtype(self))@Struct.0.dtypes))) <- self.scan.projection is All | each(read_child(self, resolve_field(lazy_dtype(self), elem(self.scan.projection@Flat.0)), get(Table.new(self.fb_bytes, self.fb_loc), 8, None), elem(value(lazy_dtype(self))@Struct.0.dtypes))) <- self.scan.projection is Flat}) <- self.reader is None
@ <vortex_serde::layouts::read::layouts::inline_dtype::InlineDTypeLayout as vortex_serde::layouts::read::LayoutReader>::read_next args=self stores=child_layout loops=1
layout(get(self.layout_builder.layout_ctx.layout_refs, LayoutId(get(Table.new(self.fb_bytes, loc(get(get(Table.new(self.fb_bytes, self.fb_loc), 8, None), 0)._tab)), 4, 0))), self.fb_bytes, loc(get(get(Table.new(self.fb_bytes, self.fb_loc), 8, None), 0)._tab), self.scan, self.layout_builder, RelativeLayoutCache(self.message_cache.root, LazyDeserializedDType(Value(dtype(self)@DType.0)), self.message_cache.path.push(1))) <- dtype(self) is DType & self.child_layout is None
@ <vortex_serde::layouts::read::buffered::BufferedReader>::buffered_row_count args=self,x
sum(each(len(elem(self.arrays))))
@ <vortex_serde::layouts::read::buffered::BufferedReader>::is_empty args=self,x
and(Eq(0, len(self.arrays)), Eq(0, len(self.layouts)))
@ <vortex_serde::layouts::read::buffered::BufferedReader>::new args=self,x
BufferedReader(self, default(alloc::collections::vec_deque::VecDeque<vortex::Array, alloc::alloc::Global>), x)
'''
FILTER = r'''
@ <vortex_serde::layouts::read::filtering::RowFilter>::evaluate args=self,x flat=1 loops=1
ConstantArray.new(False, len(x)) <- next(self.conjunction) is Some
null_as_false(cur(evaluate(elem(self.conjunction), x))) <- next(self.conjunction) is None
@ <vortex_serde::layouts::read::filtering::RowFilter>::evaluate args=self,x flat=1
ConstantArray.new(False, len(x)) <- next(self.conjunction) is Some
null_as_false(evaluate(elem(self.conjunction), x)) <- next(self.conjunction) is None
@ <vortex_serde::layouts::read::filtering::RowFilter>::evaluate args=self,x voc=evaluate,null_as_false,and,compute_true_count,into_bool calls=and under=all n=1
and(evaluate(elem(self.conjunction), x), loop{and(evaluate(elem(self.conjunction), x), loop) | evaluate(elem(self.conjunction), x)})
@ <vortex_serde::layouts::read::filtering::RowFilter>::evaluate args=self,x voc=evaluate,null_as_false,and,compute_true_count,into_bool calls=null_as_false under=all n=1
null_as_false(loop{and(evaluate(elem(self.conjunction), x), loop) | evaluate(elem(self.conjunction), x)})
@ <vortex_serde::layouts::read::filtering::RowFilter>::evaluate args=self,x voc=evaluate,null_as_false,and,compute_true_count,into_bool calls=new under=all n=1
new(False, len(x))
@ <vortex_serde::layouts::read::filtering::RowFilter>::evaluate args=self,x voc=evaluate,null_as_false,and,compute_true_count,into_bool calls=and under=all loops=1 n=1
and(evaluate(elem(self.conjunction), x), cur(evaluate(elem(self.conjunction), x))) <- !Eq(0, compute_true_count(cur(evaluate(elem(self.conjunction), x))@*))
@ <vortex_serde::layouts::read::filtering::RowFilter>::evaluate args=self,x voc=evaluate,null_as_false,and,compute_true_count,into_bool calls=null_as_false under=all loops=1 n=1
null_as_false(cur(evaluate(elem(self.conjunction), x)))
@ <vortex_serde::layouts::read::filtering::RowFilter>::evaluate args=self,x voc=evaluate,null_as_false,and,compute_true_count,into_bool calls=new under=all loops=1 n=1
new(False, len(x)) <- Eq(0, compute_true_count(cur(evaluate(elem(self.conjunction), x))@*))
@ <vortex_serde::layouts::read::filtering::RowFilter>::evaluate args=self,x errs=1 loops=1
ConstantArray.new(False, len(x)) <- Eq(0, compute_true_count(cur(evaluate(elem(self.conjunction), x))@*)) & next(self.conjunction) is Some
null_as_false(cur(evaluate(elem(self.conjunction), x))) <- next(self.conjunction) is None
@ <vortex_serde::layouts::read::filtering::RowFilter>::new args=self
RowFilter(split_conjunction(self))
@ <vortex_serde::layouts::read::filtering::RowFilter>::references args=self,x voc=collect_references
HashSet.new()
loop{HashSet.new() | loop}.collect_references(elem(self.conjunction))
@ <vortex_serde::layouts::read::filtering::RowFilter>::references args=self,x voc=collect_references calls=collect_references n=1
collect_references(elem(self.conjunction), loop{HashSet.new() | loop.collect_references(elem(self.conjunction))})
@ vortex_serde::layouts::read::stream::read_ranges args=reader,ranges flat=1
(reader, await(buffered(each(map(read_at_into(reader, elem(ranges).1.begin, BytesMut.with_capacity().set_len(len(elem(ranges).1))), fn((elem(ranges).0, freeze($0))))), 10)))
@ vortex_serde::layouts::read::stream::read_ranges args=reader,ranges calls=read_at_into n=1
read_at_into(reader, elem(ranges).1.begin, BytesMut.with_capacity().set_len(len(elem(ranges).1)))
@ vortex_serde::layouts::read::null_as_false args=self
{BoolArray.try_new(bitand(boolean_buffer(self), boolean_buffer(validity(self)@Array.0)), NonNullable) <- validity(self) is Array | BoolArray.try_new(boolean_buffer(self), NonNullable) <- validity(self) is AllValid | BoolArray.try_new(new_unset(len(self)), NonNullable) <- validity(self) is AllInvalid | self <- validity(self) is NonNullable}
@ vortex_serde::layouts::read::null_as_false args=self errs=1
{BoolArray.try_new(bitand(boolean_buffer(self), boolean_buffer(validity(self)@Array.0)), NonNullable) <- validity(self) is Array | BoolArray.try_new(boolean_buffer(self), NonNullable) <- validity(self) is AllValid | BoolArray.try_new(new_unset(len(self)), NonNullable) <- validity(self) is AllInvalid | self <- validity(self) is NonNullable}
'''
STREAM = r'''
@ <vortex_serde::layouts::read::stream::LayoutBatchStream<R> as futures_core::stream::Stream>::poll_next args=self,cx voc=filter steps=self
.cached_mask = None <- cur(self.state) is Decoding
.cached_mask = cur(self.cached_mask) <- cur(self.state) is FilterInit & read_next(self.filter_reader) is ReadMore
.cached_mask = cur(self.cached_mask) <- cur(self.state) is FilterReading|Init|Reading
.cached_mask = evaluate(self.scan.filter, read_next(self.filter_reader)@Batch.0) <- cur(self.state) is FilterInit & read_next(self.filter_reader) is Batch
.input = None <- cur(self.state) is FilterInit & read_next(self.filter_reader) is ReadMore
.input = None <- cur(self.state) is Init & read_next(cur(self.layout_reader)) is ReadMore
.input = cur(self.input) <- cur(self.state) is Decoding
.input = cur(self.input) <- cur(self.state) is FilterInit & read_next(self.filter_reader) is Batch
.input = cur(self.input) <- cur(self.state) is Init & read_next(cur(self.layout_reader)) is Batch
.input = poll_unpin(cur(self.state)@FilterReading.0, cur(cx))@Ready.0.0 <- cur(self.state) is FilterReading
.input = poll_unpin(cur(self.state)@Reading.0, cur(cx))@Ready.0.0 <- cur(self.state) is Reading
.layout_reader = cur(self.layout_reader) <- cur(self.state) is Decoding|FilterInit|FilterReading|Reading
.layout_reader = cur(self.layout_reader).read_next() <- cur(self.state) is Init
.state = Decoding(read_next(cur(self.layout_reader))@Batch.0) <- cur(self.state) is Init & read_next(cur(self.layout_reader)) is Batch
.state = FilterInit <- cur(self.state) is Decoding & self.filter_reader is Some
.state = FilterInit <- cur(self.state) is FilterReading
.state = FilterReading(read_ranges(cur(self.input), read_next(self.filter_reader)@ReadMore.0)) <- cur(self.state) is FilterInit & read_next(self.filter_reader) is ReadMore & self.filter_reader is Some
.state = Init <- cur(self.state) is Decoding & self.filter_reader is None
.state = Init <- cur(self.state) is FilterInit & read_next(self.filter_reader) is Batch
.state = Init <- cur(self.state) is Reading
.state = Reading(read_ranges(cur(self.input), read_next(cur(self.layout_reader))@ReadMore.0)) <- cur(self.state) is Init & read_next(cur(self.layout_reader)) is ReadMore
@ <vortex_serde::layouts::read::stream::LayoutBatchStream<R> as futures_core::stream::Stream>::poll_next args=self,cx flat=1 loops=1
Pending <- cur(self.state) is FilterReading|Reading
Ready(None) <- cur(self.state) is Error|FilterReading|Reading
Ready(None) <- cur(self.state) is FilterInit & read_next(self.filter_reader) is None & read_next(self.filter_reader) is Ok
Ready(None) <- cur(self.state) is Init & read_next(cur(self.layout_reader)) is None & read_next(cur(self.layout_reader)) is Ok
Ready(or(filter(cur(self.state)@Decoding.0, cur(self.cached_mask)), cur(self.state)@Decoding.0)) <- cur(self.state) is Decoding
Result.from_residual(residual(cur(self.input))) <- cur(self.state) is FilterInit & read_next(self.filter_reader) is Ok & read_next(self.filter_reader) is ReadMore & read_next(self.filter_reader) is Some
Result.from_residual(residual(cur(self.input))) <- cur(self.state) is Init & read_next(cur(self.layout_reader)) is Ok & read_next(cur(self.layout_reader)) is Some
Result.from_residual(residual(evaluate(self.scan.filter, read_next(self.filter_reader)@Batch.0))) <- cur(self.state) is FilterInit & read_next(self.filter_reader) is Batch & read_next(self.filter_reader) is Ok & read_next(self.filter_reader) is Some
Result.from_residual(residual(filter(cur(self.state)@Decoding.0, cur(self.cached_mask)))) <- cur(self.cached_mask) is Some & cur(self.state) is Decoding
Result.from_residual(residual(read_next(cur(self.layout_reader)))) <- cur(self.state) is Init & read_next(cur(self.layout_reader)) is Err
Result.from_residual(residual(read_next(self.filter_reader))) <- cur(self.state) is FilterInit & read_next(self.filter_reader) is Err
@ <vortex_serde::layouts::read::stream::LayoutBatchStream<R> as futures_core::stream::Stream>::poll_next args=self,cx seq=read_next|read_ranges|evaluate|filter|store_messages|poll_unpin#1 loops=1
filter(cur(self.cached_mask))
poll_unpin(cur(cx)) ; store_messages(poll_unpin(cur(self.state)@FilterReading.0, cur(cx))@Ready.0.1)
poll_unpin(cur(cx)) ; store_messages(poll_unpin(cur(self.state)@Reading.0, cur(cx))@Ready.0.1)
read_next() ; evaluate(read_next(self.filter_reader)@Batch.0)
read_next() ; read_ranges(read_next(cur(self.layout_reader))@ReadMore.0)
read_next() ; read_ranges(read_next(self.filter_reader)@ReadMore.0)
@ <vortex_serde::layouts::read::builder::LayoutReaderBuilder<R>>::new args=self,x flat=1
LayoutReaderBuilder(self, x, None, None, None, None, None)
@ <vortex_serde::layouts::read::builder::LayoutReaderBuilder<R>>::size args=self,x flat=1
or(self.size, await(size(self.reader)))
@ <vortex_serde::layouts::read::builder::LayoutReaderBuilder<R>>::with_batch_size args=self,x flat=1
with(self.batch_size=x)
@ <vortex_serde::layouts::read::builder::LayoutReaderBuilder<R>>::with_projection args=self,x flat=1
with(self.projection=x)
@ <vortex_serde::layouts::read::builder::LayoutReaderBuilder<R>>::with_row_filter args=self,x flat=1
with(self.row_filter=x)
@ <vortex_serde::layouts::read::builder::LayoutReaderBuilder<R>>::with_size args=self,x flat=1
with(self.size=x)
@ <vortex_serde::layouts::read::builder::LayoutReaderBuilder<R>>::with_indices args=self,x show=.
with(self.indices=x)
@ <vortex_serde::layouts::read::builder::LayoutReaderBuilder<R>>::build args=self flat=1
LayoutBatchStream(self.reader, layout(await(read_footer(LayoutDescriptorReader(self.layout_serde), self.reader, await(size(self)))), Scan(self.indices, or(self.projection, default(vortex_schema::projection::Projection)), self.row_filter, or(self.batch_size, 65536)), RelativeLayoutCache(RwLock.new(default(vortex_serde::layouts::read::cache::LayoutMessageCache)), LazyDeserializedDType(Serialized(dtype_bytes(await(read_footer(LayoutDescriptorReader(self.layout_serde), self.reader, await(size(self))))), OnceCell.new(), All)), Vec.new())), layout(await(read_footer(LayoutDescriptorReader(self.layout_serde), self.reader, await(size(self)))), Scan(None, {All <- !iall(references(self.row_filter), !elem(references(self.row_filter)) is Index) | All <- Eq(0, len(references(self.row_filter))) | Flat(references(self.row_filter)) <- !Eq(0, len(references(self.row_filter))) & iall(references(self.row_filter), !elem(references(self.row_filter)) is Index)}, self.row_filter, or(self.batch_size, 65536)), RelativeLayoutCache(RwLock.new(default(vortex_serde::layouts::read::cache::LayoutMessageCache)), LazyDeserializedDType(Serialized(dtype_bytes(await(read_footer(LayoutDescriptorReader(self.layout_serde), self.reader, await(size(self))))), OnceCell.new(), All)), Vec.new())), Scan(self.indices, or(self.projection, default(vortex_schema::projection::Projection)), self.row_filter, or(self.batch_size, 65536)), RwLock.new(default(vortex_serde::layouts::read::cache::LayoutMessageCache)), {FilterInit | Init}, {dtype(await(read_footer(LayoutDescriptorReader(self.layout_serde), self.reader, await(size(self))))) <- or(self.projection, default(vortex_schema::projection::Projection)) is All | projected_dtype(await(read_footer(LayoutDescriptorReader(self.layout_serde), self.reader, await(size(self)))), or(self.projection, default(vortex_schema::projection::Projection))@Flat.0) <- or(self.projection, default(vortex_schema::projection::Projection)) is Flat}, None)
@ <vortex_serde::layouts::read::stream::LayoutBatchStream<R>>::new args=self,a,b,c,d,e
LayoutBatchStream(self, a, b, e, c, {FilterInit <- b is Some | Init <- b is None}, d, None)
@ <vortex_serde::layouts::read::stream::LayoutBatchStream<R>>::schema args=self
Schema(dtype(self))
@ <vortex_serde::layouts::read::stream::LayoutBatchStream<R>>::store_messages args=self,x calls=set n=1
set(loop{loop.set(elem(x).0, elem(x).1) | write(self.messages_cache)}, elem(x).0, elem(x).1)
@ <vortex_serde::layouts::read::stream::LayoutBatchStream<R>>::read_all args=self flat=1
ChunkedArray.try_new(await(self), schema(self).0) <- !Eq(1, len(await(self)))
next(await(self)) <- Eq(1, len(await(self)))
@ vortex_serde::layouts::read::stream::read_ranges args=reader,ranges flat=1
(reader, await(buffered(each(map(read_at_into(reader, elem(ranges).1.begin, BytesMut.with_capacity().set_len(len(elem(ranges).1))), fn((elem(ranges).0, freeze($0))))), 10)))
@ vortex_serde::layouts::read::stream::read_ranges args=reader,ranges calls=read_at_into n=1
read_at_into(reader, elem(ranges).1.begin, BytesMut.with_capacity().set_len(len(elem(ranges).1)))
@ <vortex_serde::layouts::read::stream::LayoutBatchStream<R> as futures_core::stream::Stream>::poll_next args=self,cx voc=read_next,read_ranges,RowFilter.evaluate,filter,store_messages,compute_true_count calls=filter under=all loops=1 n=1
filter(cur(self.state)@Decoding.0, cur(self.cached_mask)) <- !Eq(0, compute_true_count(cur(self.cached_mask)@*)) & cur(self.cached_mask) is Some & cur(self.state) is Decoding
@ <vortex_serde::layouts::read::stream::LayoutBatchStream<R> as futures_core::stream::Stream>::poll_next args=self,cx voc=read_next,read_ranges,RowFilter.evaluate,filter,store_messages,compute_true_count calls=evaluate under=all loops=1 n=1
evaluate(self.scan.filter, read_next(self.filter_reader)@Batch.0) <- cur(self.state) is FilterInit & self.filter_reader is Some
@ <vortex_serde::layouts::read::stream::LayoutBatchStream<R> as futures_core::stream::Stream>::poll_next args=self,cx voc=read_next,read_ranges,RowFilter.evaluate,filter,store_messages,compute_true_count calls=read_ranges under=all each=1 loops=1 n=2
read_ranges(cur(self.input), read_next(cur(self.layout_reader))@ReadMore.0) <- cur(self.state) is Init
read_ranges(cur(self.input), read_next(self.filter_reader)@ReadMore.0) <- cur(self.state) is FilterInit & self.filter_reader is Some
@ <vortex_serde::layouts::read::stream::LayoutBatchStream<R> as futures_core::stream::Stream>::poll_next args=self,cx voc=read_next,read_ranges,RowFilter.evaluate,filter,store_messages,compute_true_count calls=read_next under=all each=1 loops=1 n=2
read_next(cur(self.layout_reader)) <- cur(self.state) is Init
read_next(self.filter_reader) <- cur(self.state) is FilterInit & self.filter_reader is Some
@ <vortex_serde::layouts::read::stream::LayoutBatchStream<R> as futures_core::stream::Stream>::poll_next args=self,cx voc=read_next,read_ranges,RowFilter.evaluate,filter,store_messages,compute_true_count calls=store_messages#1 under=all each=1 loops=1 n=2
store_messages(poll_unpin(cur(self.state)@FilterReading.0, cur(cx))@Ready.0.1) <- cur(self.state) is FilterReading & poll_unpin(cur(self.state)@FilterReading.0, cur(cx)) is Ready
store_messages(poll_unpin(cur(self.state)@Reading.0, cur(cx))@Ready.0.1) <- cur(self.state) is Reading & poll_unpin(cur(self.state)@Reading.0, cur(cx)) is Ready
'''
CACHE = r'''
@ <vortex_serde::layouts::read::cache::LayoutMessageCache>::get args=self,a,b,c,d
get(self.cache, a)
@ <vortex_serde::layouts::read::cache::LayoutMessageCache>::remove args=self,a,b,c,d
remove(self.cache, a)
@ <vortex_serde::layouts::read::cache::RelativeLayoutCache>::absolute_id args=self,a,b,c,d
self.path.extend_from_slice(a)
@ <vortex_serde::layouts::read::cache::RelativeLayoutCache>::dtype args=self,a,b,c,d
dtype(self)
@ <vortex_serde::layouts::read::cache::RelativeLayoutCache>::get args=self,a,b,c,d
get(read(self.root), self.path.extend_from_slice(a))
@ <vortex_serde::layouts::read::cache::RelativeLayoutCache>::new args=self,a,b,c,d
RelativeLayoutCache(self, a, Vec.new())
@ <vortex_serde::layouts::read::cache::RelativeLayoutCache>::relative args=self,a,b,c,d
RelativeLayoutCache(self.root, b, self.path.push(a))
@ <vortex_serde::layouts::read::cache::RelativeLayoutCache>::remove args=self,a,b,c,d
remove(write(self.root), self.path.extend_from_slice(a))
@ <vortex_serde::layouts::read::cache::LayoutMessageCache>::set args=self,a,b calls=insert n=1
insert(self.cache, a, b)
@ <vortex_serde::layouts::read::cache::LayoutMessageCache>::set args=self,a,b out=1
.cache = self.cache.insert(a, b)
'''
def run(c):
    spec.run_tables(c, (('layout', READERS), ('filter', FILTER), ('stream', STREAM), ('cache', CACHE),), 'must keep the scan', r'vortex_serde::layouts::read::(?!footer|context|recordbatch).*$', ('layout', 15))
