from lib import *
import spec
ID = 'C19'
TITLE = 'A query returns the same rows as Arrow would'
RULE = 'the normal form of every expression (what it evaluates, which columns it references, how a DataFusion expression becomes one), of every pushdown decision (what may be pushed and for which expressions and types it may not), and of every plan and stream (what it reads, filters, projects and counts, and in which order), compared with the declared table; what must be pushed, filtered and taken is judged per call site with its guard'
EXPR = r'''
@ <vortex_expr::binary::BinaryExpr as vortex_expr::VortexExpr>::evaluate args=self,batch
and(evaluate(self.lhs, batch), evaluate(self.rhs, batch)) <- self.operator is And
compare(evaluate(self.lhs, batch), evaluate(self.rhs, batch), Eq) <- self.operator is Eq
compare(evaluate(self.lhs, batch), evaluate(self.rhs, batch), Gt) <- self.operator is Gt
compare(evaluate(self.lhs, batch), evaluate(self.rhs, batch), Gte) <- self.operator is Gte
compare(evaluate(self.lhs, batch), evaluate(self.rhs, batch), Lt) <- self.operator is Lt
compare(evaluate(self.lhs, batch), evaluate(self.rhs, batch), Lte) <- self.operator is Lte
compare(evaluate(self.lhs, batch), evaluate(self.rhs, batch), NotEq) <- self.operator is NotEq
or(evaluate(self.lhs, batch), evaluate(self.rhs, batch)) <- self.operator is Or
@ <vortex_expr::identity::Identity as vortex_expr::VortexExpr>::evaluate args=self,batch
batch
@ <vortex_expr::literal::Literal as vortex_expr::VortexExpr>::evaluate args=self,batch
ConstantArray.new(self.value, len(batch))
@ <vortex_expr::select::Select as vortex_expr::VortexExpr>::collect_references args=self,batch
extend(batch, self@Exclude.0) <- self is Exclude
extend(batch, self@Include.0) <- self is Include
@ <vortex_expr::select::Select as vortex_expr::VortexExpr>::evaluate args=self,batch
project(as_struct_array(batch), each(Name(elem(names(as_struct_array(batch)))) if !contains(each({elem(self@Exclude.0)@Name.0 <- elem(self@Exclude.0) is Name | optfilter(index(names(as_struct_array(batch)), elem(self@Exclude.0)@Index.0), Lt(elem(self@Exclude.0)@Index.0, len(names(as_struct_array(batch))))) <- elem(self@Exclude.0) is Index}), elem(names(as_struct_array(batch)))))) <- self is Exclude
project(as_struct_array(batch), self@Include.0) <- self is Include
@ vortex_expr::split_conjunction args=expr,exprs
Vec.new().push(expr) <- downcast_ref(as_any(expr)) is None
Vec.new().push(expr) <- downcast_ref(as_any(expr)).operator is Eq|Gt|Gte|Lt|Lte|NotEq|Or
Vec.new().split_inner(downcast_ref(as_any(expr)).lhs).split_inner(downcast_ref(as_any(expr)).rhs) <- downcast_ref(as_any(expr)) is Some & downcast_ref(as_any(expr)).operator is And
@ vortex_expr::unbox_any args=expr,exprs
as_any(downcast_ref(expr)) <- is(expr)
expr <- !is(expr)
@ vortex_expr::VortexExpr::references args=self
HashSet.new()
@ <vortex_expr::binary::BinaryExpr>::lhs args=self,a,b
self.lhs
@ <vortex_expr::binary::BinaryExpr>::new args=self,a,b
BinaryExpr(self, a, b)
@ <vortex_expr::binary::BinaryExpr>::op args=self,a,b
self.operator
@ <vortex_expr::binary::BinaryExpr>::rhs args=self,a,b
self.rhs
@ <vortex_expr::column::Column>::field args=self,a,b
self.field
@ <vortex_expr::column::Column>::new args=self,a,b
Column(self)
@ <vortex_expr::literal::Literal>::new args=self,a,b
Literal(self)
@ <vortex_expr::operators::Operator>::inverse args=self,a,b
Eq <- self is NotEq
Gt <- self is Lte
Gte <- self is Lt
Lt <- self is Gte
Lte <- self is Gt
None <- self is And|Or
NotEq <- self is Eq
@ <vortex_expr::operators::Operator>::swap args=self,a,b
Gt <- self is Lt
Gte <- self is Lte
Lt <- self is Gt
Lte <- self is Gte
self <- self is And|Eq|NotEq|Or
@ <vortex_expr::select::Select>::exclude args=self,a,b
Exclude(self)
@ <vortex_expr::select::Select>::include args=self,a,b
Include(self)
@ <vortex_expr::column::Column as core::convert::From<alloc::string::String>>::from args=value
Column(Name(value))
@ <vortex_expr::column::Column as core::convert::From<usize>>::from args=value
Column(Index(value))
@ <vortex_expr::operators::Operator as core::convert::TryFrom<datafusion_expr_common::operator::Operator>>::try_from args=value
Gte <- value is GtEq
Lte <- value is LtEq
value <- value is And|Eq|Gt|Lt|NotEq|Or
@ vortex_expr::datafusion::convert_expr_to_vortex args=expr
Column(Name(name(downcast_ref(as_any(expr))))) <- downcast_ref(as_any(expr)) is None & downcast_ref(as_any(expr)) is Some
or(BinaryExpr(convert_expr_to_vortex(left(downcast_ref(as_any(expr)))), TryFrom.try_from(op(downcast_ref(as_any(expr)))), convert_expr_to_vortex(right(downcast_ref(as_any(expr))))), Literal(or({Scalar(Binary(Nullable), Buffer(Arrow(Buffer.from_vec({value(downcast_ref(as_any(expr)))@Binary.0 <- value(downcast_ref(as_any(expr))) is Binary | value(downcast_ref(as_any(expr)))@BinaryView.0 <- value(downcast_ref(as_any(expr))) is BinaryView | value(downcast_ref(as_any(expr)))@FixedSizeBinary.1 <- value(downcast_ref(as_any(expr))) is FixedSizeBinary | value(downcast_ref(as_any(expr)))@LargeBinary.0 <- value(downcast_ref(as_any(expr))) is LargeBinary})))) <- value(downcast_ref(as_any(expr))) is Binary|BinaryView|FixedSizeBinary|LargeBinary | Scalar(Bool(NonNullable), Bool(value(downcast_ref(as_any(expr)))@Boolean.0)) <- value(downcast_ref(as_any(expr))) is Boolean | Scalar(Extension({ExtDType(get(('#', ('static', '<vortex_datetime_dtype::temporal::DATE_ID as core::ops::deref::Deref>::deref::__stability::LAZY')), fn:<DATE_ID as Deref>::__static_ref_initialize), ExtMetadata(Vec.new().push(discr(D)))) <- data_type(value(downcast_ref(as_any(expr)))) is Date32 | ExtDType(get(('#', ('static', '<vortex_datetime_dtype::temporal::DATE_ID as core::ops::deref::Deref>::deref::__stability::LAZY')), fn:<DATE_ID as Deref>::__static_ref_initialize), ExtMetadata(Vec.new().push(discr(Ms)))) <- data_type(value(downcast_ref(as_any(expr)))) is Date64 | ExtDType(get(('#', ('static', '<vortex_datetime_dtype::temporal::TIMESTAMP_ID as core::ops::deref::Deref>::deref::__stability::LAZY')), fn:<TIMESTAMP_ID as Deref>::__static_ref_initialize), ExtMetadata(or(Vec.new().push(discr({Ms <- data_type(value(downcast_ref(as_any(expr))))@Timestamp.0 is Millisecond | Ns <- data_type(value(downcast_ref(as_any(expr))))@Timestamp.0 is Nanosecond | S <- data_type(value(downcast_ref(as_any(expr))))@Timestamp.0 is Second | Us <- data_type(value(downcast_ref(as_any(expr))))@Timestamp.0 is Microsecond})).extend_from_slice(to_le_bytes(TryFrom.try_from(len(data_type(value(downcast_ref(as_any(expr))))@Timestamp.1)))).extend_from_slice(data_type(value(downcast_ref(as_any(expr))))@Timestamp.1), Vec.new().push(discr({Ms <- data_type(value(downcast_ref(as_any(expr))))@Timestamp.0 is Millisecond | Ns <- data_type(value(downcast_ref(as_any(expr))))@Timestamp.0 is Nanosecond | S <- data_type(value(downcast_ref(as_any(expr))))@Timestamp.0 is Second | Us <- data_type(value(downcast_ref(as_any(expr))))@Timestamp.0 is Microsecond})).extend_from_slice(to_le_bytes(0))))) <- data_type(value(downcast_ref(as_any(expr)))) is Timestamp | ExtDType(get(('#', ('static', '<vortex_datetime_dtype::temporal::TIME_ID as core::ops::deref::Deref>::deref::__stability::LAZY')), fn:<TIME_ID as Deref>::__static_ref_initialize), ExtMetadata(Vec.new().push(discr({Ms <- data_type(value(downcast_ref(as_any(expr))))@Time32.0 is Millisecond | Ns <- data_type(value(downcast_ref(as_any(expr))))@Time32.0 is Nanosecond | S <- data_type(value(downcast_ref(as_any(expr))))@Time32.0 is Second | Us <- data_type(value(downcast_ref(as_any(expr))))@Time32.0 is Microsecond})))) <- data_type(value(downcast_ref(as_any(expr)))) is Time32 | ExtDType(get(('#', ('static', '<vortex_datetime_dtype::temporal::TIME_ID as core::ops::deref::Deref>::deref::__stability::LAZY')), fn:<TIME_ID as Deref>::__static_ref_initialize), ExtMetadata(Vec.new().push(discr({Ms <- data_type(value(downcast_ref(as_any(expr))))@Time64.0 is Millisecond | Ns <- data_type(value(downcast_ref(as_any(expr))))@Time64.0 is Nanosecond | S <- data_type(value(downcast_ref(as_any(expr))))@Time64.0 is Second | Us <- data_type(value(downcast_ref(as_any(expr))))@Time64.0 is Microsecond})))) <- data_type(value(downcast_ref(as_any(expr)))) is Time64}, Nullable), Primitive(I32(value(downcast_ref(as_any(expr)))@*))) <- value(downcast_ref(as_any(expr))) is Date32|Time32Millisecond|Time32Second | Scalar(Extension({ExtDType(get(('#', ('static', '<vortex_datetime_dtype::temporal::DATE_ID as core::ops::deref::Deref>::deref::__stability::LAZY')), fn:<DATE_ID as Deref>::__static_ref_initialize), ExtMetadata(Vec.new().push(discr(D)))) <- data_type(value(downcast_ref(as_any(expr)))) is Date32 | ExtDType(get(('#', ('static', '<vortex_datetime_dtype::temporal::DATE_ID as core::ops::deref::Deref>::deref::__stability::LAZY')), fn:<DATE_ID as Deref>::__static_ref_initialize), ExtMetadata(Vec.new().push(discr(Ms)))) <- data_type(value(downcast_ref(as_any(expr)))) is Date64 | ExtDType(get(('#', ('static', '<vortex_datetime_dtype::temporal::TIMESTAMP_ID as core::ops::deref::Deref>::deref::__stability::LAZY')), fn:<TIMESTAMP_ID as Deref>::__static_ref_initialize), ExtMetadata(or(Vec.new().push(discr({Ms <- data_type(value(downcast_ref(as_any(expr))))@Timestamp.0 is Millisecond | Ns <- data_type(value(downcast_ref(as_any(expr))))@Timestamp.0 is Nanosecond | S <- data_type(value(downcast_ref(as_any(expr))))@Timestamp.0 is Second | Us <- data_type(value(downcast_ref(as_any(expr))))@Timestamp.0 is Microsecond})).extend_from_slice(to_le_bytes(TryFrom.try_from(len(data_type(value(downcast_ref(as_any(expr))))@Timestamp.1)))).extend_from_slice(data_type(value(downcast_ref(as_any(expr))))@Timestamp.1), Vec.new().push(discr({Ms <- data_type(value(downcast_ref(as_any(expr))))@Timestamp.0 is Millisecond | Ns <- data_type(value(downcast_ref(as_any(expr))))@Timestamp.0 is Nanosecond | S <- data_type(value(downcast_ref(as_any(expr))))@Timestamp.0 is Second | Us <- data_type(value(downcast_ref(as_any(expr))))@Timestamp.0 is Microsecond})).extend_from_slice(to_le_bytes(0))))) <- data_type(value(downcast_ref(as_any(expr)))) is Timestamp | ExtDType(get(('#', ('static', '<vortex_datetime_dtype::temporal::TIME_ID as core::ops::deref::Deref>::deref::__stability::LAZY')), fn:<TIME_ID as Deref>::__static_ref_initialize), ExtMetadata(Vec.new().push(discr({Ms <- data_type(value(downcast_ref(as_any(expr))))@Time32.0 is Millisecond | Ns <- data_type(value(downcast_ref(as_any(expr))))@Time32.0 is Nanosecond | S <- data_type(value(downcast_ref(as_any(expr))))@Time32.0 is Second | Us <- data_type(value(downcast_ref(as_any(expr))))@Time32.0 is Microsecond})))) <- data_type(value(downcast_ref(as_any(expr)))) is Time32 | ExtDType(get(('#', ('static', '<vortex_datetime_dtype::temporal::TIME_ID as core::ops::deref::Deref>::deref::__stability::LAZY')), fn:<TIME_ID as Deref>::__static_ref_initialize), ExtMetadata(Vec.new().push(discr({Ms <- data_type(value(downcast_ref(as_any(expr))))@Time64.0 is Millisecond | Ns <- data_type(value(downcast_ref(as_any(expr))))@Time64.0 is Nanosecond | S <- data_type(value(downcast_ref(as_any(expr))))@Time64.0 is Second | Us <- data_type(value(downcast_ref(as_any(expr))))@Time64.0 is Microsecond})))) <- data_type(value(downcast_ref(as_any(expr)))) is Time64}, Nullable), Primitive(I64(value(downcast_ref(as_any(expr)))@*))) <- value(downcast_ref(as_any(expr))) is Date64|Time64Microsecond|Time64Nanosecond|TimestampMicrosecond|TimestampMillisecond|TimestampNanosecond|TimestampSecond | Scalar(Null, Null) <- value(downcast_ref(as_any(expr))) is Null | Scalar(Utf8(NonNullable), BufferString(BufferString(Arrow(Buffer.from_vec(value(downcast_ref(as_any(expr)))@*))))) <- value(downcast_ref(as_any(expr))) is LargeUtf8|Utf8|Utf8View | Scalar(dtype(), value(downcast_ref(as_any(expr)))@Float16.0) <- value(downcast_ref(as_any(expr))) is Float16 | Scalar(dtype(), value(downcast_ref(as_any(expr)))@Float32.0) <- value(downcast_ref(as_any(expr))) is Float32 | Scalar(dtype(), value(downcast_ref(as_any(expr)))@Float64.0) <- value(downcast_ref(as_any(expr))) is Float64 | Scalar(dtype(), value(downcast_ref(as_any(expr)))@Int16.0) <- value(downcast_ref(as_any(expr))) is Int16 | Scalar(dtype(), value(downcast_ref(as_any(expr)))@Int32.0) <- value(downcast_ref(as_any(expr))) is Int32 | Scalar(dtype(), value(downcast_ref(as_any(expr)))@Int64.0) <- value(downcast_ref(as_any(expr))) is Int64 | Scalar(dtype(), value(downcast_ref(as_any(expr)))@Int8.0) <- value(downcast_ref(as_any(expr))) is Int8 | Scalar(dtype(), value(downcast_ref(as_any(expr)))@UInt16.0) <- value(downcast_ref(as_any(expr))) is UInt16 | Scalar(dtype(), value(downcast_ref(as_any(expr)))@UInt32.0) <- value(downcast_ref(as_any(expr))) is UInt32 | Scalar(dtype(), value(downcast_ref(as_any(expr)))@UInt64.0) <- value(downcast_ref(as_any(expr))) is UInt64 | Scalar(dtype(), value(downcast_ref(as_any(expr)))@UInt8.0) <- value(downcast_ref(as_any(expr))) is UInt8}, Scalar(Null, Null))))
@ <vortex_expr::binary::BinaryExpr as vortex_expr::VortexExpr>::collect_references args=self,refs calls=collect_references n=2
collect_references(self.lhs, refs)
collect_references(self.rhs, refs.collect_references(self.lhs))
@ <vortex_expr::column::Column as vortex_expr::VortexExpr>::collect_references args=self,refs calls=insert n=1
insert(refs, self.field)
@ vortex_expr::VortexExpr::references args=self calls=collect_references n=1
collect_references(self, HashSet.new())
@ <vortex_expr::column::Column as vortex_expr::VortexExpr>::evaluate args=self,batch errs=1
{field(TryFrom.try_from(batch), self.field@Index.0) <- self.field is Index | field_by_name(TryFrom.try_from(batch), self.field@Name.0) <- self.field is Name}
@ vortex_expr::split_conjunction args=expr voc=split_inner calls=split_inner n=1
split_inner(expr, Vec.new())
@ vortex_expr::split_inner args=expr,exprs calls=split_inner under=all each=1 n=2
split_inner(downcast_ref(as_any(expr)).lhs, exprs) <- downcast_ref(as_any(expr)) is Some & downcast_ref(as_any(expr)).operator is And
split_inner(downcast_ref(as_any(expr)).rhs, exprs.split_inner(downcast_ref(as_any(expr)).lhs)) <- downcast_ref(as_any(expr)) is Some & downcast_ref(as_any(expr)).operator is And
@ vortex_expr::split_inner args=expr,exprs calls=push under=all each=1 n=1
push(exprs, expr) <- downcast_ref(as_any(expr)) is None
push(exprs, expr) <- downcast_ref(as_any(expr)).operator is Eq|Gt|Gte|Lt|Lte|NotEq|Or
@ vortex_expr::datafusion::convert_expr_to_vortex args=expr errs=1 voc=Scalar.from
Column(Name(name(downcast_ref(as_any(expr))))) <- downcast_ref(as_any(expr)) is None & downcast_ref(as_any(expr)) is Some
or(BinaryExpr(convert_expr_to_vortex(left(downcast_ref(as_any(expr)))), TryFrom.try_from(op(downcast_ref(as_any(expr)))), convert_expr_to_vortex(right(downcast_ref(as_any(expr))))), Literal(value(downcast_ref(as_any(expr)))))
@ <vortex_expr::binary::BinaryExpr as core::cmp::PartialEq<dyn core::any::Any>>::eq args=self,other
Eq(True, and(Eq(downcast_ref({as_any(downcast_ref(other)) <- is(other) | other <- !is(other)}).lhs, self.lhs), Eq(downcast_ref({as_any(downcast_ref(other)) <- is(other) | other <- !is(other)}).operator, self.operator), Eq(downcast_ref({as_any(downcast_ref(other)) <- is(other) | other <- !is(other)}).rhs, self.rhs)))
@ <vortex_expr::column::Column as core::cmp::PartialEq<dyn core::any::Any>>::eq args=self,other
Eq(Eq(downcast_ref({as_any(downcast_ref(other)) <- is(other) | other <- !is(other)}), self), True)
@ <vortex_expr::identity::Identity as core::cmp::PartialEq<dyn core::any::Any>>::eq args=self,other
Eq(Eq(downcast_ref({as_any(downcast_ref(other)) <- is(other) | other <- !is(other)}), self), True)
@ <vortex_expr::literal::Literal as core::cmp::PartialEq<dyn core::any::Any>>::eq args=self,other
Eq(Eq(downcast_ref({as_any(downcast_ref(other)) <- is(other) | other <- !is(other)}), self), True)
@ <vortex_expr::select::Select as core::cmp::PartialEq<dyn core::any::Any>>::eq args=self,other
Eq(Eq(downcast_ref({as_any(downcast_ref(other)) <- is(other) | other <- !is(other)}), self), True)
'''
PLAN = r'''
@ vortex_datafusion::SessionContextExt::read_mem_vortex args=self,name,array,options
read_mem_vortex_opts(self, name, VortexMemTableOptions(True))
@ vortex_datafusion::SessionContextExt::register_mem_vortex args=self,name,array,options
register_mem_vortex_opts(self, name, array, VortexMemTableOptions(True))
@ <vortex_datafusion::VortexScanExec>::try_new args=array,projection,props
VortexScanExec(array, projection, props, Statistics(Exact(len(array)), Exact(or(sum(each(nbytes(field(as_struct_array(array), elem(projection))))), 0)), each(ColumnStatistics(or(Exact(TryFrom.try_from(get(field(as_struct_array(array), elem(projection))@*, NullCount))), Absent), or(Exact(TryFrom.try_from(get(field(as_struct_array(array), elem(projection))@*, Max))), Absent), or(Exact(TryFrom.try_from(get(field(as_struct_array(array), elem(projection))@*, Min))), Absent), Absent))))
@ <vortex_datafusion::VortexScanExec as datafusion_physical_plan::execution_plan::ExecutionPlan>::children args=self,partition,context
Vec.new()
@ <vortex_datafusion::VortexScanExec as datafusion_physical_plan::execution_plan::ExecutionPlan>::execute args=self,partition,context
VortexRecordBatchStream(schema(self), 0, nchunks(self), self, each(Index(elem(self.scan_projection))))
@ <vortex_datafusion::VortexScanExec as datafusion_physical_plan::execution_plan::ExecutionPlan>::properties args=self,partition,context
self.plan_properties
@ <vortex_datafusion::VortexScanExec as datafusion_physical_plan::execution_plan::ExecutionPlan>::statistics args=self,partition,context
self.statistics
@ <vortex_datafusion::VortexScanExec as datafusion_physical_plan::execution_plan::ExecutionPlan>::with_new_children args=self,partition,context
self
@ <vortex_datafusion::persistent::execution::VortexExec as datafusion_physical_plan::execution_plan::ExecutionPlan>::children args=self,partition,context
Vec.new()
@ <vortex_datafusion::persistent::execution::VortexExec as datafusion_physical_plan::execution_plan::ExecutionPlan>::execute args=self,partition,context
FileStream.new(self.file_scan_config, partition, VortexFileOpener(self.ctx, object_store(runtime_env(context), self.file_scan_config.object_store_url), None, self.file_scan_config.projection, self.predicate, self.file_scan_config.file_schema), self.metrics)
@ <vortex_datafusion::persistent::execution::VortexExec as datafusion_physical_plan::execution_plan::ExecutionPlan>::properties args=self,partition,context
self.plan_properties
@ <vortex_datafusion::persistent::execution::VortexExec as datafusion_physical_plan::execution_plan::ExecutionPlan>::with_new_children args=self,partition,context
self
@ <vortex_datafusion::plans::RowSelectorExec as datafusion_physical_plan::execution_plan::ExecutionPlan>::children args=self,partition,context
Vec.new()
@ <vortex_datafusion::plans::RowSelectorExec as datafusion_physical_plan::execution_plan::ExecutionPlan>::execute args=self,partition,context
RowIndicesStream(self.chunked_array, 0, self.filter_expr, references(self.filter_expr))
@ <vortex_datafusion::plans::RowSelectorExec as datafusion_physical_plan::execution_plan::ExecutionPlan>::properties args=self,partition,context
self.cached_plan_props
@ <vortex_datafusion::plans::RowSelectorExec as datafusion_physical_plan::execution_plan::ExecutionPlan>::with_new_children args=self,partition,context
self
@ <vortex_datafusion::plans::TakeRowsExec as datafusion_physical_plan::execution_plan::ExecutionPlan>::children args=self,partition,context
[self.input]
@ <vortex_datafusion::plans::TakeRowsExec as datafusion_physical_plan::execution_plan::ExecutionPlan>::execute args=self,partition,context
TakeRowsStream(execute(self.input, partition, context), 0, self.projection, self.output_schema, self.table)
@ <vortex_datafusion::plans::TakeRowsExec as datafusion_physical_plan::execution_plan::ExecutionPlan>::properties args=self,partition,context
self.plan_properties
@ <vortex_datafusion::plans::TakeRowsExec as datafusion_physical_plan::execution_plan::ExecutionPlan>::with_new_children args=self,partition,context
self
@ <vortex_datafusion::memory::VortexMemTable as datafusion_catalog::table::TableProvider>::schema args=self,state,projection,filters
self.schema_ref
@ <vortex_datafusion::persistent::provider::VortexFileTableProvider as datafusion_catalog::table::TableProvider>::schema args=self,state,projection,filters
self.schema_ref
@ <vortex_datafusion::persistent::provider::VortexFileTableProvider as datafusion_catalog::table::TableProvider>::statistics args=self,state,projection,filters
None
@ <vortex_datafusion::VortexRecordBatchStream as datafusion_execution::stream::RecordBatchStream>::schema args=self
self.schema_ref
@ <vortex_datafusion::plans::RowIndicesStream as datafusion_execution::stream::RecordBatchStream>::schema args=self
get(('#', ('static', '<vortex_datafusion::plans::ROW_SELECTOR_SCHEMA_REF as core::ops::deref::Deref>::deref::__stability::LAZY')), fn:<ROW_SELECTOR_SCHEMA_REF as Deref>::__static_ref_initialize)
@ <vortex_datafusion::plans::TakeRowsStream<F> as datafusion_execution::stream::RecordBatchStream>::schema args=self
self.output_schema
@ <vortex_datafusion::memory::VortexMemTable>::new args=array,options
VortexMemTable(or(TryFrom.try_from(array), ChunkedArray.try_new([array], dtype(array))), finish(loop{SchemaBuilder.with_capacity() | each(Field.new(elem(dtype(array)@Struct.0.names), infer_data_type(elem(dtype(array)@Struct.0.dtypes)), nullability(elem(dtype(array)@Struct.0.dtypes)) is Nullable))}), options)
@ <vortex_datafusion::memory::VortexMemTableOptions as core::default::Default>::default args=array,options
VortexMemTableOptions(True)
@ <vortex_datafusion::memory::VortexMemTableOptions>::with_pushdown args=array,options
with(array.enable_pushdown=options)
@ vortex_datafusion::memory::make_filter_then_take_plan args=schema,filter,array,projection,state
TakeRowsExec(PlanProperties.new(EquivalenceProperties.new(project(schema, projection)), UnknownPartitioning(1), Bounded), each(Index(elem(projection))), RowSelectorExec(filter, PlanProperties.new(EquivalenceProperties.new(get(('#', ('static', '<vortex_datafusion::plans::ROW_SELECTOR_SCHEMA_REF as core::ops::deref::Deref>::deref::__stability::LAZY')), fn:<ROW_SELECTOR_SCHEMA_REF as Deref>::__static_ref_initialize)), UnknownPartitioning(1), Bounded), array), project(schema, projection), array)
@ <vortex_datafusion::plans::RowSelectorExec>::try_new args=a,b,c,d
RowSelectorExec(a, PlanProperties.new(EquivalenceProperties.new(get(('#', ('static', '<vortex_datafusion::plans::ROW_SELECTOR_SCHEMA_REF as core::ops::deref::Deref>::deref::__stability::LAZY')), fn:<ROW_SELECTOR_SCHEMA_REF as Deref>::__static_ref_initialize)), UnknownPartitioning(1), Bounded), b)
@ <vortex_datafusion::plans::TakeRowsExec>::new args=a,b,c,d
TakeRowsExec(PlanProperties.new(EquivalenceProperties.new(project(a, b)), UnknownPartitioning(1), Bounded), each(Index(elem(b))), c, project(a, b), d)
@ vortex_datafusion::can_be_null args=expr,schema
True <- expr is AggregateFunction|Alias|Between|BinaryExpr|Case|Cast|Column|Exists|GroupingSet|InList|InSubquery|IsFalse|IsNotFalse|IsNotNull|IsNotTrue|IsNotUnknown|IsNull|IsTrue|IsUnknown|Like|Negative|Not|OuterReferenceColumn|Placeholder|ScalarFunction|ScalarSubquery|ScalarVariable|SimilarTo|TryCast|Unnest|Wildcard|WindowFunction
can_be_null(expr@BinaryExpr.0.right, schema) <- !can_be_null(expr@BinaryExpr.0.left, schema) & expr is BinaryExpr
is_null(expr@Literal.0) <- expr is Literal
is_nullable(column_with_name(schema, name(expr@Column.0)).1) <- column_with_name(schema, name(expr@Column.0)) is Some & expr is Column
@ vortex_datafusion::has_logic args=expr,schema
False <- expr is AggregateFunction|Alias|Between|Case|Cast|Column|Exists|GroupingSet|InList|InSubquery|IsFalse|IsNotFalse|IsNotNull|IsNotTrue|IsNotUnknown|IsNull|IsTrue|IsUnknown|Like|Literal|Negative|Not|OuterReferenceColumn|Placeholder|ScalarFunction|ScalarSubquery|ScalarVariable|SimilarTo|TryCast|Unnest|Wildcard|WindowFunction
True <- expr is BinaryExpr & has_logic(expr@BinaryExpr.0.left)
True <- expr is BinaryExpr & is_logic_operator(expr@BinaryExpr.0.op)
has_logic(expr@BinaryExpr.0.right) <- !has_logic(expr@BinaryExpr.0.left) & !is_logic_operator(expr@BinaryExpr.0.op) & expr is BinaryExpr
@ <vortex_datafusion::VortexRecordBatchStream as futures_core::stream::Stream>::poll_next args=self,cx loops=0
Ready(None) <- !Lt(self.idx, self.num_chunks)
or(or(or(Ready(TryFrom.try_from(project(chunk(self.chunks, self.idx), self.projection))), Result.from_residual(residual(TryFrom.try_from(project(chunk(self.chunks, self.idx), self.projection))))), Result.from_residual(residual(project(chunk(self.chunks, self.idx), self.projection)))), Result.from_residual(residual(chunk(self.chunks, self.idx)))) <- Lt(self.idx, self.num_chunks)
@ <vortex_datafusion::VortexRecordBatchStream as futures_core::stream::Stream>::poll_next args=self,cx stores=idx
[self.idx + 1] <- Lt(self.idx, self.num_chunks)
@ <vortex_datafusion::plans::RowIndicesStream as futures_core::stream::Stream>::poll_next args=self,cx
Ready(None) <- !Lt(self.chunk_idx, nchunks(self.chunked_array))
or(Result.from_residual(residual(project(as_struct_array(chunk(self.chunked_array, self.chunk_idx)), self.filter_projection))), Result.from_residual(residual(chunk(self.chunked_array, self.chunk_idx)))) <- Lt(self.chunk_idx, nchunks(self.chunked_array))
or(or(or(Ready(RecordBatch.try_new(get(('#', ('static', '<vortex_datafusion::plans::ROW_SELECTOR_SCHEMA_REF as core::ops::deref::Deref>::deref::__stability::LAZY')), fn:<ROW_SELECTOR_SCHEMA_REF as Deref>::__static_ref_initialize), [PrimitiveArray.from_iter_values(each(elem(set_indices(or(bitand(inner(nulls(as_boolean(into_arrow(evaluate(self.conjunction_expr, project(as_struct_array(chunk(self.chunked_array, self.chunk_idx)), self.filter_projection)))))), values(as_boolean(into_arrow(evaluate(self.conjunction_expr, project(as_struct_array(chunk(self.chunked_array, self.chunk_idx)), self.filter_projection)))))), values(as_boolean(into_arrow(evaluate(self.conjunction_expr, project(as_struct_array(chunk(self.chunked_array, self.chunk_idx)), self.filter_projection))))))))))])), Result.from_residual(residual(RecordBatch.try_new(get(('#', ('static', '<vortex_datafusion::plans::ROW_SELECTOR_SCHEMA_REF as core::ops::deref::Deref>::deref::__stability::LAZY')), fn:<ROW_SELECTOR_SCHEMA_REF as Deref>::__static_ref_initialize), [PrimitiveArray.from_iter_values(each(elem(set_indices(or(bitand(inner(nulls(as_boolean(into_arrow(evaluate(self.conjunction_expr, project(as_struct_array(chunk(self.chunked_array, self.chunk_idx)), self.filter_projection)))))), values(as_boolean(into_arrow(evaluate(self.conjunction_expr, project(as_struct_array(chunk(self.chunked_array, self.chunk_idx)), self.filter_projection)))))), values(as_boolean(into_arrow(evaluate(self.conjunction_expr, project(as_struct_array(chunk(self.chunked_array, self.chunk_idx)), self.filter_projection))))))))))])))), Result.from_residual(residual(into_arrow(evaluate(self.conjunction_expr, project(as_struct_array(chunk(self.chunked_array, self.chunk_idx)), self.filter_projection)))))), Result.from_residual(residual(evaluate(self.conjunction_expr, project(as_struct_array(chunk(self.chunked_array, self.chunk_idx)), self.filter_projection))))) <- Lt(self.chunk_idx, nchunks(self.chunked_array)) & chunk(self.chunked_array, self.chunk_idx) is Ok
@ <vortex_datafusion::plans::RowIndicesStream as futures_core::stream::Stream>::poll_next args=self,cx stores=chunk_idx
[self.chunk_idx + 1] <- Lt(self.chunk_idx, nchunks(self.chunked_array))
@ <vortex_datafusion::plans::RowIndicesStream as futures_core::stream::Stream>::poll_next args=self,cx voc=chunk,project,nchunks calls=evaluate n=1
evaluate(self.conjunction_expr, project(as_struct_array(chunk(self.chunked_array, self.chunk_idx)), self.filter_projection))
@ <vortex_datafusion::plans::TakeRowsStream<F> as futures_core::stream::Stream>::poll_next args=self,cx
Ready(None) <- poll_next(project(self).row_indices_stream, cx) is Ready & poll_next(project(self).row_indices_stream, cx)@Ready.0 is None
Result.from_residual(residual(poll_next(project(self).row_indices_stream, cx)@Ready.0)) <- poll_next(project(self).row_indices_stream, cx) is Ready & poll_next(project(self).row_indices_stream, cx)@Ready.0 is Err & poll_next(project(self).row_indices_stream, cx)@Ready.0 is Some
or(Ready(RecordBatch.try_new_with_options(empty(), Vec.new(), RecordBatchOptions.with_row_count(RecordBatchOptions.new(), len(PrimitiveArray.from_arrow(as_primitive(column(poll_next(project(self).row_indices_stream, cx)@Ready.0, 0)), False))))), Result.from_residual(residual(RecordBatch.try_new_with_options(empty(), Vec.new(), RecordBatchOptions.with_row_count(RecordBatchOptions.new(), len(PrimitiveArray.from_arrow(as_primitive(column(poll_next(project(self).row_indices_stream, cx)@Ready.0, 0)), False))))))) <- Eq(0, len(project(self).output_projection)) & poll_next(project(self).row_indices_stream, cx) is Ready & poll_next(project(self).row_indices_stream, cx)@Ready.0 is Ok & poll_next(project(self).row_indices_stream, cx)@Ready.0 is Some
or(or(or(or(Ready(as_struct(into_arrow(take(project(chunk(project(self).vortex_array, project(self).chunk_idx), project(self).output_projection), PrimitiveArray.from_arrow(as_primitive(column(poll_next(project(self).row_indices_stream, cx)@Ready.0, 0)), False))))), Result.from_residual(residual(into_arrow(take(project(chunk(project(self).vortex_array, project(self).chunk_idx), project(self).output_projection), PrimitiveArray.from_arrow(as_primitive(column(poll_next(project(self).row_indices_stream, cx)@Ready.0, 0)), False)))))), Result.from_residual(residual(take(project(chunk(project(self).vortex_array, project(self).chunk_idx), project(self).output_projection), PrimitiveArray.from_arrow(as_primitive(column(poll_next(project(self).row_indices_stream, cx)@Ready.0, 0)), False))))), Result.from_residual(residual(project(chunk(project(self).vortex_array, project(self).chunk_idx), project(self).output_projection)))), Result.from_residual(residual(chunk(project(self).vortex_array, project(self).chunk_idx)))) <- !Eq(0, len(project(self).output_projection)) & poll_next(project(self).row_indices_stream, cx) is Ready & poll_next(project(self).row_indices_stream, cx)@Ready.0 is Ok & poll_next(project(self).row_indices_stream, cx)@Ready.0 is Some
poll_next(project(self).row_indices_stream, cx) <- poll_next(project(self).row_indices_stream, cx) is Pending
@ <vortex_datafusion::plans::TakeRowsStream<F> as futures_core::stream::Stream>::poll_next args=self,cx stores=*
[project(self).chunk_idx + 1] <- !Eq(0, len(project(self).output_projection))
@ <vortex_datafusion::plans::TakeRowsStream<F> as futures_core::stream::Stream>::poll_next args=self,cx calls=take voc=chunk,project n=1
take(project(chunk(project(self).vortex_array, project(self).chunk_idx), project(self).output_projection), PrimitiveArray.from_arrow(as_primitive(column(poll_next(project(self).row_indices_stream, cx)@Ready.0, 0)), False))
@ <datafusion::execution::context::SessionContext as vortex_datafusion::SessionContextExt>::register_disk_vortex_opts args=self,name,array,options calls=register_table errs=1 voc=VortexMemTable.new,VortexFileTableProvider.try_new n=1
register_table(self, name, VortexFileTableProvider.try_new(array, options))
@ <datafusion::execution::context::SessionContext as vortex_datafusion::SessionContextExt>::register_mem_vortex_opts args=self,name,array,options calls=register_table errs=1 voc=VortexMemTable.new,VortexFileTableProvider.try_new n=1
register_table(self, name, VortexMemTable.new(array, options))
@ <datafusion::execution::context::SessionContext as vortex_datafusion::SessionContextExt>::read_disk_vortex_opts args=self,name,array,options calls=read_table errs=1 voc=VortexMemTable.new,VortexFileTableProvider.try_new n=1
read_table(self, VortexFileTableProvider.try_new(name, array))
@ <datafusion::execution::context::SessionContext as vortex_datafusion::SessionContextExt>::read_mem_vortex_opts args=self,name,array,options calls=read_table errs=1 voc=VortexMemTable.new,VortexFileTableProvider.try_new n=1
read_table(self, VortexMemTable.new(name, array))
@ vortex_datafusion::can_be_pushed_down args=expr,schema voc=supported_data_types,can_be_null,has_logic
False
can_be_pushed_down(expr@BinaryExpr.0.right, schema) <- can_be_pushed_down(expr@BinaryExpr.0.left, schema) & contains(SUPPORTED_BINARY_OPS, expr@BinaryExpr.0.op) & expr is BinaryExpr
can_be_pushed_down(expr@BinaryExpr.0.right, schema) <- can_be_pushed_down(expr@BinaryExpr.0.left, schema) & expr is BinaryExpr & is_logic_operator(expr@BinaryExpr.0.op)
supported_data_types(data_type(column_with_name(schema, name(expr@Column.0)).1)) <- column_with_name(schema, name(expr@Column.0)) is Some & expr is Column
supported_data_types(data_type(expr@Literal.0)) <- !is_null(expr@Literal.0) & expr is Literal
@ vortex_datafusion::can_be_pushed_down args=expr,schema voc=supported_data_types,can_be_null,has_logic calls=can_be_null under=all each=1 n=3
can_be_null(elem([expr@BinaryExpr.0.left, expr@BinaryExpr.0.right]), schema) <- contains(SUPPORTED_BINARY_OPS, expr@BinaryExpr.0.op) & expr is BinaryExpr & expr@BinaryExpr.0.op is ArrowAt|AtArrow|BitwiseAnd|BitwiseOr|BitwiseShiftLeft|BitwiseShiftRight|BitwiseXor|Divide|Eq|Gt|GtEq|ILikeMatch|IsDistinctFrom|IsNotDistinctFrom|LikeMatch|Lt|LtEq|Minus|Modulo|Multiply|NotEq|NotILikeMatch|NotLikeMatch|Plus|RegexIMatch|RegexMatch|RegexNotIMatch|RegexNotMatch|StringConcat & has_logic(elem([expr@BinaryExpr.0.left, expr@BinaryExpr.0.right]))
can_be_null(elem([expr@BinaryExpr.0.left, expr@BinaryExpr.0.right]), schema) <- expr is BinaryExpr & expr@BinaryExpr.0.op is ArrowAt|AtArrow|BitwiseAnd|BitwiseOr|BitwiseShiftLeft|BitwiseShiftRight|BitwiseXor|Divide|Eq|Gt|GtEq|ILikeMatch|IsDistinctFrom|IsNotDistinctFrom|LikeMatch|Lt|LtEq|Minus|Modulo|Multiply|NotEq|NotILikeMatch|NotLikeMatch|Plus|RegexIMatch|RegexMatch|RegexNotIMatch|RegexNotMatch|StringConcat & has_logic(elem([expr@BinaryExpr.0.left, expr@BinaryExpr.0.right])) & is_logic_operator(expr@BinaryExpr.0.op)
can_be_null(expr@BinaryExpr.0.left, schema) <- contains(SUPPORTED_BINARY_OPS, expr@BinaryExpr.0.op) & expr is BinaryExpr & expr@BinaryExpr.0.op is Or
can_be_null(expr@BinaryExpr.0.left, schema) <- expr is BinaryExpr & expr@BinaryExpr.0.op is Or & is_logic_operator(expr@BinaryExpr.0.op)
can_be_null(expr@BinaryExpr.0.right, schema) <- !can_be_null(expr@BinaryExpr.0.left, schema) & contains(SUPPORTED_BINARY_OPS, expr@BinaryExpr.0.op) & expr is BinaryExpr & expr@BinaryExpr.0.op is Or
can_be_null(expr@BinaryExpr.0.right, schema) <- !can_be_null(expr@BinaryExpr.0.left, schema) & expr is BinaryExpr & expr@BinaryExpr.0.op is Or & is_logic_operator(expr@BinaryExpr.0.op)
@ vortex_datafusion::can_be_pushed_down args=expr,schema voc=supported_data_types,can_be_null,has_logic calls=contains n=1
contains(SUPPORTED_BINARY_OPS, expr@BinaryExpr.0.op)
@ vortex_datafusion::supported_data_types args=expr,schema flat=1
False <- !is_floating(expr) & !is_integer(expr) & !is_null(expr) & expr is Decimal128|Decimal256|Dictionary|Duration|FixedSizeBinary|FixedSizeList|Float16|Float32|Float64|Int16|Int32|Int64|Int8|Interval|LargeBinary|LargeList|LargeListView|LargeUtf8|List|ListView|Map|Null|RunEndEncoded|Struct|UInt16|UInt32|UInt64|UInt8|Union
True <- expr is Time32|Time64|Timestamp
@ <vortex_datafusion::memory::VortexMemTable as datafusion_catalog::table::TableProvider>::scan args=self,state,projection,filters
or(make_filter_then_take_plan(self.schema_ref, convert_expr_to_vortex(create_physical_expr(conjunction(filters), to_dfschema(self.schema_ref), execution_props(state))), self, or(projection, 0..len(fields(self.schema_ref))), state), VortexScanExec.try_new(self, or(projection, 0..len(fields(self.schema_ref))), PlanProperties.new(EquivalenceProperties.new(project(self.schema_ref, or(projection, 0..len(fields(self.schema_ref))))), UnknownPartitioning(1), Bounded)))
@ <vortex_datafusion::memory::VortexMemTable as datafusion_catalog::table::TableProvider>::scan args=self,state,projection,filters voc=VortexScanExec.try_new,make_filter_then_take_plan,convert_expr_to_vortex calls=make_filter_then_take_plan under=all n=1
make_filter_then_take_plan(self.schema_ref, convert_expr_to_vortex(create_physical_expr(conjunction(filters), to_dfschema(self.schema_ref), execution_props(state))), self, or(projection, 0..len(fields(self.schema_ref))), state) <- conjunction(filters) is Some
@ <vortex_datafusion::memory::VortexMemTable as datafusion_catalog::table::TableProvider>::scan args=self,state,projection,filters voc=VortexScanExec.try_new,make_filter_then_take_plan calls=try_new under=all n=1
try_new(self, or(projection, 0..len(fields(self.schema_ref))), PlanProperties.new(EquivalenceProperties.new(project(self.schema_ref, or(projection, 0..len(fields(self.schema_ref))))), UnknownPartitioning(1), Bounded)) <- conjunction(filters) is None
@ <vortex_datafusion::persistent::provider::VortexFileTableProvider as datafusion_catalog::table::TableProvider>::scan args=self,state,projection,filters
EmptyExec.new(project_schema(schema(self), projection)) <- Eq(0, len(self.config.data_files))
VortexExec(FileScanConfig.with_projection(FileScanConfig.with_file_group(FileScanConfig.new(self.object_store_url, schema(self)), each(PartitionedFile.new(elem(self.config.data_files).object_meta.location, elem(self.config.data_files).object_meta.size))), projection), ExecutionPlanMetricsSet.new(), create_physical_expr(state, conjunction(filters), to_dfschema(schema(self))), PlanProperties.new(EquivalenceProperties.new(project_schema(FileScanConfig.with_projection(FileScanConfig.with_file_group(FileScanConfig.new(self.object_store_url, schema(self)), each(PartitionedFile.new(elem(self.config.data_files).object_meta.location, elem(self.config.data_files).object_meta.size))), projection).file_schema, projection)), UnknownPartitioning(1), Bounded), self.config.ctx) <- !Eq(0, len(self.config.data_files))
@ <vortex_datafusion::persistent::opener::VortexFileOpener as datafusion::datasource::physical_plan::file_stream::FileOpener>::open args=self,meta calls=with_projection#1 under=all n=1
with_projection(Flat(each(Index(elem({[0] <- Eq(Eq(0, len(self.projection)), True) | self.projection <- !Eq(Eq(0, len(self.projection)), True)}))))) <- !Eq(Eq(0, len(self.projection)), True) & self.projection is Some
with_projection(Flat(each(Index(elem({[0] <- Eq(Eq(0, len(self.projection)), True) | self.projection <- !Eq(Eq(0, len(self.projection)), True)}))))) <- Eq(0, len(self.projection)) & self.projection is Some
@ <vortex_datafusion::persistent::opener::VortexFileOpener as datafusion::datasource::physical_plan::file_stream::FileOpener>::open args=self,meta calls=with_row_filter#1 under=all voc=convert_expr_to_vortex,split_conjunction n=1
with_row_filter(RowFilter(split_conjunction(convert_expr_to_vortex(self.predicate)))) <- self.predicate is Some
@ <vortex_datafusion::persistent::opener::VortexFileOpener as datafusion::datasource::physical_plan::file_stream::FileOpener>::open args=self,meta calls=with_batch_size#1 under=all n=1
with_batch_size(self.batch_size) <- self.batch_size is Some
@ <vortex_datafusion::memory::VortexMemTable as datafusion_catalog::table::TableProvider>::supports_filters_pushdown args=self,filters
each(Unsupported) <- !self.options.enable_pushdown
each({Exact | Unsupported}) <- self.options.enable_pushdown
@ <vortex_datafusion::persistent::provider::VortexFileTableProvider as datafusion_catalog::table::TableProvider>::supports_filters_pushdown args=self,filters
each({Exact | Unsupported})
@ <vortex_datafusion::persistent::config::VortexFile>::new args=self,a,b,c,d
VortexFile(ObjectMeta(self, timestamp_nanos(Utc, 0), a, None, None))
@ <vortex_datafusion::persistent::config::VortexTableOptions>::new args=self,a,b,c,d
VortexTableOptions(a, self, b)
@ <vortex_datafusion::persistent::execution::VortexExec>::into_arc args=self,a,b,c,d
self
@ <vortex_datafusion::persistent::execution::VortexExec>::try_new args=self,a,b,c,d
VortexExec(self, a, c, PlanProperties.new(EquivalenceProperties.new(project_schema(self.file_schema, b)), UnknownPartitioning(1), Bounded), d)
@ <vortex_datafusion::persistent::provider::VortexFileTableProvider>::try_new args=self,a,b,c,d
VortexFileTableProvider(a.schema, self, a)
'''
SCAL = r'''
@ <datafusion_common::scalar::ScalarValue as core::convert::TryFrom<vortex_scalar::Scalar>>::try_from args=value
{Binary(or(into_vec(optfilter(value.value@Buffer.0, value.value is Buffer)), into_vec(optfilter(value.value@Buffer.0, value.value is Buffer))@Err.0@*)) <- dtype(value) is Binary | Boolean(as_bool(value.value)) <- dtype(value) is Bool | Float16(None) <- as_pvalue(value.value) is None & dtype(value) is Primitive & dtype(value)@Primitive.0 is F16 | Float16(as_pvalue(value.value)@F16.0) <- as_pvalue(value.value) is F16 & as_pvalue(value.value) is Some & dtype(value) is Primitive | Float32(None) <- as_pvalue(value.value) is None & dtype(value) is Primitive & dtype(value)@Primitive.0 is F32 | Float32(as_pvalue(value.value)@F32.0) <- as_pvalue(value.value) is F32 & as_pvalue(value.value) is Some & dtype(value) is Primitive | Float64(None) <- as_pvalue(value.value) is None & dtype(value) is Primitive & dtype(value)@Primitive.0 is F64 | Float64(as_pvalue(value.value)@F64.0) <- as_pvalue(value.value) is F64 & as_pvalue(value.value) is Some & dtype(value) is Primitive | Int16(None) <- as_pvalue(value.value) is None & dtype(value) is Primitive & dtype(value)@Primitive.0 is I16 | Int16(as_pvalue(value.value)@I16.0) <- as_pvalue(value.value) is I16 & as_pvalue(value.value) is Some & dtype(value) is Primitive | Int32(None) <- as_pvalue(value.value) is None & dtype(value) is Primitive & dtype(value)@Primitive.0 is I32 | Int32(as_pvalue(value.value)@I32.0) <- as_pvalue(value.value) is I32 & as_pvalue(value.value) is Some & dtype(value) is Primitive | Int64(None) <- as_pvalue(value.value) is None & dtype(value) is Primitive & dtype(value)@Primitive.0 is I64 | Int64(as_pvalue(value.value)@I64.0) <- as_pvalue(value.value) is I64 & as_pvalue(value.value) is Some & dtype(value) is Primitive | Int8(None) <- as_pvalue(value.value) is None & dtype(value) is Primitive & dtype(value)@Primitive.0 is I8 | Int8(as_pvalue(value.value)@I8.0) <- as_pvalue(value.value) is I8 & as_pvalue(value.value) is Some & dtype(value) is Primitive | UInt16(None) <- as_pvalue(value.value) is None & dtype(value) is Primitive & dtype(value)@Primitive.0 is U16 | UInt16(as_pvalue(value.value)@U16.0) <- as_pvalue(value.value) is Some & as_pvalue(value.value) is U16 & dtype(value) is Primitive | UInt32(None) <- as_pvalue(value.value) is None & dtype(value) is Primitive & dtype(value)@Primitive.0 is U32 | UInt32(as_pvalue(value.value)@U32.0) <- as_pvalue(value.value) is Some & as_pvalue(value.value) is U32 & dtype(value) is Primitive | UInt64(None) <- as_pvalue(value.value) is None & dtype(value) is Primitive & dtype(value)@Primitive.0 is U64 | UInt64(as_pvalue(value.value)@U64.0) <- as_pvalue(value.value) is Some & as_pvalue(value.value) is U64 & dtype(value) is Primitive | UInt8(None) <- as_pvalue(value.value) is None & dtype(value) is Primitive & dtype(value)@Primitive.0 is U8 | UInt8(as_pvalue(value.value)@U8.0) <- as_pvalue(value.value) is Some & as_pvalue(value.value) is U8 & dtype(value) is Primitive | Utf8(from_utf8_unchecked({{None <- value.value is Null | TryFrom.try_from(value.value@Buffer.0) <- value.value is Buffer | value.value@BufferString.0 <- value.value is BufferString}.0@Arrow.0 <- {None <- value.value is Null | TryFrom.try_from(value.value@Buffer.0) <- value.value is Buffer | value.value@BufferString.0 <- value.value is BufferString}.0 is Arrow | {None <- value.value is Null | TryFrom.try_from(value.value@Buffer.0) <- value.value is Buffer | value.value@BufferString.0 <- value.value is BufferString}.0@Bytes.0 <- {None <- value.value is Null | TryFrom.try_from(value.value@Buffer.0) <- value.value is Buffer | value.value@BufferString.0 <- value.value is BufferString}.0 is Bytes})) <- dtype(value) is Utf8 | dtype(value) <- dtype(value) is Null} <- dtype(value) is Binary|Bool|Null|Primitive|Utf8
{Date32(optfilter(as_pvalue(value.value)@I32.0, as_pvalue(value.value) is I32)) <- TryFrom.try_from(dtype(value)@Extension.0) is Date & TryFrom.try_from(dtype(value)@Extension.0)@Date.0 is D | Date64(optfilter(as_pvalue(value.value)@I64.0, as_pvalue(value.value) is I64)) <- TryFrom.try_from(dtype(value)@Extension.0) is Date & TryFrom.try_from(dtype(value)@Extension.0)@Date.0 is Ms | Time32Millisecond(optfilter(as_pvalue(value.value)@I32.0, as_pvalue(value.value) is I32)) <- TryFrom.try_from(dtype(value)@Extension.0) is Time & TryFrom.try_from(dtype(value)@Extension.0)@Time.0 is Ms | Time32Second(optfilter(as_pvalue(value.value)@I32.0, as_pvalue(value.value) is I32)) <- TryFrom.try_from(dtype(value)@Extension.0) is Time & TryFrom.try_from(dtype(value)@Extension.0)@Time.0 is S | Time64Microsecond(optfilter(as_pvalue(value.value)@I64.0, as_pvalue(value.value) is I64)) <- TryFrom.try_from(dtype(value)@Extension.0) is Time & TryFrom.try_from(dtype(value)@Extension.0)@Time.0 is Us | Time64Nanosecond(optfilter(as_pvalue(value.value)@I64.0, as_pvalue(value.value) is I64)) <- TryFrom.try_from(dtype(value)@Extension.0) is Time & TryFrom.try_from(dtype(value)@Extension.0)@Time.0 is Ns | TimestampMicrosecond(optfilter(as_pvalue(value.value)@I64.0, as_pvalue(value.value) is I64), TryFrom.try_from(dtype(value)@Extension.0)@Timestamp.1) <- TryFrom.try_from(dtype(value)@Extension.0) is Timestamp & TryFrom.try_from(dtype(value)@Extension.0)@Timestamp.0 is Us | TimestampMillisecond(optfilter(as_pvalue(value.value)@I64.0, as_pvalue(value.value) is I64), TryFrom.try_from(dtype(value)@Extension.0)@Timestamp.1) <- TryFrom.try_from(dtype(value)@Extension.0) is Timestamp & TryFrom.try_from(dtype(value)@Extension.0)@Timestamp.0 is Ms | TimestampNanosecond(optfilter(as_pvalue(value.value)@I64.0, as_pvalue(value.value) is I64), TryFrom.try_from(dtype(value)@Extension.0)@Timestamp.1) <- TryFrom.try_from(dtype(value)@Extension.0) is Timestamp & TryFrom.try_from(dtype(value)@Extension.0)@Timestamp.0 is Ns | TimestampSecond(optfilter(as_pvalue(value.value)@I64.0, as_pvalue(value.value) is I64), TryFrom.try_from(dtype(value)@Extension.0)@Timestamp.1) <- TryFrom.try_from(dtype(value)@Extension.0) is Timestamp & TryFrom.try_from(dtype(value)@Extension.0)@Timestamp.0 is S} <- dtype(value) is Extension
@ <vortex_scalar::Scalar as core::convert::From<datafusion_common::scalar::ScalarValue>>::from args=value flat=1
or({Scalar(Binary(Nullable), Buffer(Arrow(Buffer.from_vec({value@Binary.0 <- value is Binary | value@BinaryView.0 <- value is BinaryView | value@FixedSizeBinary.1 <- value is FixedSizeBinary | value@LargeBinary.0 <- value is LargeBinary})))) <- value is Binary|BinaryView|FixedSizeBinary|LargeBinary | Scalar(Bool(NonNullable), Bool(value@Boolean.0)) <- value is Boolean | Scalar(Extension({ExtDType(get(('#', ('static', '<vortex_datetime_dtype::temporal::DATE_ID as core::ops::deref::Deref>::deref::__stability::LAZY')), fn:<DATE_ID as Deref>::__static_ref_initialize), ExtMetadata(Vec.new().push(discr(D)))) <- data_type(value) is Date32 | ExtDType(get(('#', ('static', '<vortex_datetime_dtype::temporal::DATE_ID as core::ops::deref::Deref>::deref::__stability::LAZY')), fn:<DATE_ID as Deref>::__static_ref_initialize), ExtMetadata(Vec.new().push(discr(Ms)))) <- data_type(value) is Date64 | ExtDType(get(('#', ('static', '<vortex_datetime_dtype::temporal::TIMESTAMP_ID as core::ops::deref::Deref>::deref::__stability::LAZY')), fn:<TIMESTAMP_ID as Deref>::__static_ref_initialize), ExtMetadata(or(Vec.new().push(discr({Ms <- data_type(value)@Timestamp.0 is Millisecond | Ns <- data_type(value)@Timestamp.0 is Nanosecond | S <- data_type(value)@Timestamp.0 is Second | Us <- data_type(value)@Timestamp.0 is Microsecond})).extend_from_slice(to_le_bytes(TryFrom.try_from(len(data_type(value)@Timestamp.1)))).extend_from_slice(data_type(value)@Timestamp.1), Vec.new().push(discr({Ms <- data_type(value)@Timestamp.0 is Millisecond | Ns <- data_type(value)@Timestamp.0 is Nanosecond | S <- data_type(value)@Timestamp.0 is Second | Us <- data_type(value)@Timestamp.0 is Microsecond})).extend_from_slice(to_le_bytes(0))))) <- data_type(value) is Timestamp | ExtDType(get(('#', ('static', '<vortex_datetime_dtype::temporal::TIME_ID as core::ops::deref::Deref>::deref::__stability::LAZY')), fn:<TIME_ID as Deref>::__static_ref_initialize), ExtMetadata(Vec.new().push(discr({Ms <- data_type(value)@Time32.0 is Millisecond | Ns <- data_type(value)@Time32.0 is Nanosecond | S <- data_type(value)@Time32.0 is Second | Us <- data_type(value)@Time32.0 is Microsecond})))) <- data_type(value) is Time32 | ExtDType(get(('#', ('static', '<vortex_datetime_dtype::temporal::TIME_ID as core::ops::deref::Deref>::deref::__stability::LAZY')), fn:<TIME_ID as Deref>::__static_ref_initialize), ExtMetadata(Vec.new().push(discr({Ms <- data_type(value)@Time64.0 is Millisecond | Ns <- data_type(value)@Time64.0 is Nanosecond | S <- data_type(value)@Time64.0 is Second | Us <- data_type(value)@Time64.0 is Microsecond})))) <- data_type(value) is Time64}, Nullable), Primitive(I32(value@*))) <- value is Date32|Time32Millisecond|Time32Second | Scalar(Extension({ExtDType(get(('#', ('static', '<vortex_datetime_dtype::temporal::DATE_ID as core::ops::deref::Deref>::deref::__stability::LAZY')), fn:<DATE_ID as Deref>::__static_ref_initialize), ExtMetadata(Vec.new().push(discr(D)))) <- data_type(value) is Date32 | ExtDType(get(('#', ('static', '<vortex_datetime_dtype::temporal::DATE_ID as core::ops::deref::Deref>::deref::__stability::LAZY')), fn:<DATE_ID as Deref>::__static_ref_initialize), ExtMetadata(Vec.new().push(discr(Ms)))) <- data_type(value) is Date64 | ExtDType(get(('#', ('static', '<vortex_datetime_dtype::temporal::TIMESTAMP_ID as core::ops::deref::Deref>::deref::__stability::LAZY')), fn:<TIMESTAMP_ID as Deref>::__static_ref_initialize), ExtMetadata(or(Vec.new().push(discr({Ms <- data_type(value)@Timestamp.0 is Millisecond | Ns <- data_type(value)@Timestamp.0 is Nanosecond | S <- data_type(value)@Timestamp.0 is Second | Us <- data_type(value)@Timestamp.0 is Microsecond})).extend_from_slice(to_le_bytes(TryFrom.try_from(len(data_type(value)@Timestamp.1)))).extend_from_slice(data_type(value)@Timestamp.1), Vec.new().push(discr({Ms <- data_type(value)@Timestamp.0 is Millisecond | Ns <- data_type(value)@Timestamp.0 is Nanosecond | S <- data_type(value)@Timestamp.0 is Second | Us <- data_type(value)@Timestamp.0 is Microsecond})).extend_from_slice(to_le_bytes(0))))) <- data_type(value) is Timestamp | ExtDType(get(('#', ('static', '<vortex_datetime_dtype::temporal::TIME_ID as core::ops::deref::Deref>::deref::__stability::LAZY')), fn:<TIME_ID as Deref>::__static_ref_initialize), ExtMetadata(Vec.new().push(discr({Ms <- data_type(value)@Time32.0 is Millisecond | Ns <- data_type(value)@Time32.0 is Nanosecond | S <- data_type(value)@Time32.0 is Second | Us <- data_type(value)@Time32.0 is Microsecond})))) <- data_type(value) is Time32 | ExtDType(get(('#', ('static', '<vortex_datetime_dtype::temporal::TIME_ID as core::ops::deref::Deref>::deref::__stability::LAZY')), fn:<TIME_ID as Deref>::__static_ref_initialize), ExtMetadata(Vec.new().push(discr({Ms <- data_type(value)@Time64.0 is Millisecond | Ns <- data_type(value)@Time64.0 is Nanosecond | S <- data_type(value)@Time64.0 is Second | Us <- data_type(value)@Time64.0 is Microsecond})))) <- data_type(value) is Time64}, Nullable), Primitive(I64(value@*))) <- value is Date64|Time64Microsecond|Time64Nanosecond|TimestampMicrosecond|TimestampMillisecond|TimestampNanosecond|TimestampSecond | Scalar(Null, Null) <- value is Null | Scalar(Utf8(NonNullable), BufferString(BufferString(Arrow(Buffer.from_vec(value@*))))) <- value is LargeUtf8|Utf8|Utf8View | Scalar(dtype(), value@Float16.0) <- value is Float16 | Scalar(dtype(), value@Float32.0) <- value is Float32 | Scalar(dtype(), value@Float64.0) <- value is Float64 | Scalar(dtype(), value@Int16.0) <- value is Int16 | Scalar(dtype(), value@Int32.0) <- value is Int32 | Scalar(dtype(), value@Int64.0) <- value is Int64 | Scalar(dtype(), value@Int8.0) <- value is Int8 | Scalar(dtype(), value@UInt16.0) <- value is UInt16 | Scalar(dtype(), value@UInt32.0) <- value is UInt32 | Scalar(dtype(), value@UInt64.0) <- value is UInt64 | Scalar(dtype(), value@UInt8.0) <- value is UInt8}, Scalar(Null, Null))
@ <alloc::rcs::arc::Arc<dyn arrow_array::scalar::Datum, alloc::alloc::Global> as core::convert::TryFrom<&vortex_scalar::Scalar>>::try_from args=value
NullArray.new(1) <- dtype(value) is Null
or(new_scalar(as_bool(value.value)), Scalar.new(new_null(1))) <- dtype(value) is Bool
or(new_scalar(as_pvalue(value.value)@I32.0), Scalar.new(new_null(1))) <- TryFrom.try_from(dtype(value)@Extension.0) is Date & TryFrom.try_from(dtype(value)@Extension.0)@Date.0 is D & dtype(value) is Extension
or(new_scalar(as_pvalue(value.value)@I32.0), Scalar.new(new_null(1))) <- TryFrom.try_from(dtype(value)@Extension.0) is Time & TryFrom.try_from(dtype(value)@Extension.0)@Time.0 is Ms|S & dtype(value) is Extension
or(new_scalar(as_pvalue(value.value)@I64.0), Scalar.new(new_null(1))) <- TryFrom.try_from(dtype(value)@Extension.0) is Date & TryFrom.try_from(dtype(value)@Extension.0)@Date.0 is Ms & dtype(value) is Extension
or(new_scalar(as_pvalue(value.value)@I64.0), Scalar.new(new_null(1))) <- TryFrom.try_from(dtype(value)@Extension.0) is Time & TryFrom.try_from(dtype(value)@Extension.0)@Time.0 is Ns|Us & dtype(value) is Extension
or(new_scalar(as_pvalue(value.value)@I64.0), Scalar.new(new_null(1))) <- TryFrom.try_from(dtype(value)@Extension.0) is Timestamp & dtype(value) is Extension
or(new_scalar(optfilter(value.value@Buffer.0, value.value is Buffer)), Scalar.new(new_null(1))) <- dtype(value) is Binary
or(new_scalar({None <- value.value is Null | TryFrom.try_from(value.value@Buffer.0) <- value.value is Buffer | value.value@BufferString.0 <- value.value is BufferString}), Scalar.new(new_null(1))) <- dtype(value) is Utf8
{new_null(1) <- as_pvalue(value.value) is None | new_scalar(as_pvalue(value.value)@F16.0) <- as_pvalue(value.value) is F16 & as_pvalue(value.value) is Some | new_scalar(as_pvalue(value.value)@F32.0) <- as_pvalue(value.value) is F32 & as_pvalue(value.value) is Some | new_scalar(as_pvalue(value.value)@F64.0) <- as_pvalue(value.value) is F64 & as_pvalue(value.value) is Some | new_scalar(as_pvalue(value.value)@I16.0) <- as_pvalue(value.value) is I16 & as_pvalue(value.value) is Some | new_scalar(as_pvalue(value.value)@I32.0) <- as_pvalue(value.value) is I32 & as_pvalue(value.value) is Some | new_scalar(as_pvalue(value.value)@I64.0) <- as_pvalue(value.value) is I64 & as_pvalue(value.value) is Some | new_scalar(as_pvalue(value.value)@I8.0) <- as_pvalue(value.value) is I8 & as_pvalue(value.value) is Some | new_scalar(as_pvalue(value.value)@U16.0) <- as_pvalue(value.value) is Some & as_pvalue(value.value) is U16 | new_scalar(as_pvalue(value.value)@U32.0) <- as_pvalue(value.value) is Some & as_pvalue(value.value) is U32 | new_scalar(as_pvalue(value.value)@U64.0) <- as_pvalue(value.value) is Some & as_pvalue(value.value) is U64 | new_scalar(as_pvalue(value.value)@U8.0) <- as_pvalue(value.value) is Some & as_pvalue(value.value) is U8} <- dtype(value) is Primitive
@ vortex_datafusion::statistics::chunked_array_df_stats args=array,projection
Statistics(Exact(len(array)), Exact(or(sum(each(nbytes(field(as_struct_array(array), elem(projection))))), 0)), each(ColumnStatistics(or(Exact(TryFrom.try_from(get(field(as_struct_array(array), elem(projection))@*, NullCount))), Absent), or(Exact(TryFrom.try_from(get(field(as_struct_array(array), elem(projection))@*, Max))), Absent), or(Exact(TryFrom.try_from(get(field(as_struct_array(array), elem(projection))@*, Min))), Absent), Absent)))
'''
def run(c):
    spec.run_tables(c, (('expression', EXPR), ('plan', PLAN), ('scalar', SCAL),
        ('filter', spec.borrow('c17_scans', 'FILTER')), ('stream', spec.borrow('c17_scans', 'STREAM')),
        ('canonical', spec.borrow('c11_canonical', 'CANON', r'struct_to_arrow|infer'))),
        'must return the rows the query asks for', r'(vortex_expr::VortexExpr>::evaluate|VortexRecordBatchStream as futures_core::stream::Stream>::poll_next)$', ('plan', 40))
