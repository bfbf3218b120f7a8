from lib import *
import spec
ID = 'C12'
TITLE = 'Casting, subtracting, filling and boolean operations'
RULE = "the normal form of every cast, subtract_scalar, fill_forward, and / or implementation and of their dispatching entry points is compared with the form that denotes the operation row by row: the row's own value, the operator, the operand, the resulting type and the nulls of the result"
KERN = r'''
@ <vortex::array::primitive::PrimitiveArray as vortex::compute::unary::cast::CastFn>::cast args=self,dtype errs=1 ptype=I32 show=to_logical
PrimitiveArray.from_vec(each(elem(maybe_null_slice(self))), {NonNullable <- !Eq(dtype@Primitive.1, nullability(dtype(self))) & all_valid(to_logical(validity(self), len(self))) & dtype@Primitive.1 is NonNullable | into_nullable(validity(self)) <- !Eq(dtype@Primitive.1, nullability(dtype(self))) & dtype@Primitive.1 is Nullable | validity(self) <- Eq(dtype@Primitive.1, nullability(dtype(self)))}) <- dtype is Primitive & dtype@Primitive.0 is F16|F32|F64|I16|I64|I8|U16|U32|U64|U8
PrimitiveArray.new(buffer(self), I32, {NonNullable <- !Eq(dtype@Primitive.1, nullability(dtype(self))) & all_valid(to_logical(validity(self), len(self))) & dtype@Primitive.1 is NonNullable | into_nullable(validity(self)) <- !Eq(dtype@Primitive.1, nullability(dtype(self))) & dtype@Primitive.1 is Nullable | validity(self) <- Eq(dtype@Primitive.1, nullability(dtype(self)))}) <- dtype is Primitive & dtype@Primitive.0 is I32
@ <vortex::array::chunked::ChunkedArray as vortex::compute::unary::cast::CastFn>::cast args=self,dtype
ChunkedArray.try_new(each(try_cast(elem(chunks(self)), dtype)), dtype)
@ vortex::array::primitive::compute::cast::cast args=array errs=1 ptype=I32
each(elem(maybe_null_slice(array)))
@ vortex::compute::unary::cast::try_cast args=array,dtype
array <- Eq(dtype, dtype(array))
cast(cast(array), dtype) <- !Eq(dtype, dtype(array))
@ <vortex::array::bool::BoolArray as vortex::compute::unary::fill_forward::FillForwardFn>::fill_forward args=self ptype=I32
BoolArray.from_vec(each({elem(boolean_buffer(self)) <- elem(inner(to_null_buffer(to_logical(validity(self), len(self))))) | loop{False | elem(boolean_buffer(self)) <- elem(inner(to_null_buffer(to_logical(validity(self), len(self)))))} <- !elem(inner(to_null_buffer(to_logical(validity(self), len(self)))))}), AllValid) <- nullability(dtype(self)) is Nullable & to_logical(validity(self), len(self)) is Array
BoolArray.try_new(boolean_buffer(self), AllValid) <- nullability(dtype(self)) is Nullable & to_logical(validity(self), len(self)) is AllValid
BoolArray.try_new(new_unset(len(self)), AllValid) <- nullability(dtype(self)) is Nullable & to_logical(validity(self), len(self)) is AllInvalid
self <- nullability(dtype(self)) is NonNullable
@ <vortex::array::primitive::PrimitiveArray as vortex::compute::unary::fill_forward::FillForwardFn>::fill_forward args=self ptype=I32
PrimitiveArray.from_vec(each({elem(maybe_null_slice(self)) <- elem(to_null_buffer(to_logical(validity(self), len(self)))) | loop{0 | elem(maybe_null_slice(self)) <- elem(to_null_buffer(to_logical(validity(self), len(self))))} <- !elem(to_null_buffer(to_logical(validity(self), len(self))))}), AllValid) <- nullability(dtype(self)) is Nullable & to_logical(validity(self), len(self)) is Array
PrimitiveArray.from_vec(from_elem(0, len(self)), AllValid) <- nullability(dtype(self)) is Nullable & to_logical(validity(self), len(self)) is AllInvalid
PrimitiveArray.new(buffer(self), I32, AllValid) <- nullability(dtype(self)) is Nullable & to_logical(validity(self), len(self)) is AllValid
self <- nullability(dtype(self)) is NonNullable
@ <vortex_bytebool::array::ByteBoolArray as vortex::compute::unary::fill_forward::FillForwardFn>::fill_forward args=self ptype=I32
ByteBoolArray.try_from_vec(each({elem(maybe_null_slice(self)) <- elem(inner(to_null_buffer(to_logical(validity(self), len(self))))) | loop{False | elem(maybe_null_slice(self)) <- elem(inner(to_null_buffer(to_logical(validity(self), len(self)))))} <- !elem(inner(to_null_buffer(to_logical(validity(self), len(self)))))}), AllValid) <- nullability(dtype(self)) is Nullable & to_logical(validity(self), len(self)) is Array
ByteBoolArray.try_from_vec(from_elem(False, len(self)), AllValid) <- nullability(dtype(self)) is Nullable & to_logical(validity(self), len(self)) is AllInvalid
ByteBoolArray.try_new(buffer(self), AllValid) <- nullability(dtype(self)) is Nullable & to_logical(validity(self), len(self)) is AllValid
self <- nullability(dtype(self)) is NonNullable
@ vortex::compute::unary::fill_forward::fill_forward args=array
array <- nullability(dtype(array)) is NonNullable
fill_forward(fill_forward(array)) <- nullability(dtype(array)) is Nullable
@ <vortex::array::chunked::ChunkedArray as vortex::compute::unary::scalar_subtract::SubtractScalarFn>::subtract_scalar args=self,to_subtract ptype=I32
ChunkedArray.try_new(each(subtract_scalar(elem(chunks(self)), to_subtract)), dtype(self))
@ <vortex::array::primitive::PrimitiveArray as vortex::compute::unary::scalar_subtract::SubtractScalarFn>::subtract_scalar args=self,to_subtract ptype=I32
ConstantArray.new(Scalar(dtype(self), Null), len(self)) <- to_logical(validity(self), len(self)) is AllInvalid
subtract_scalar_integer(self, as_primitive(TryFrom.try_from(to_subtract).pvalue)) <- to_logical(validity(self), len(self)) is AllValid|Array
@ <vortex::array::chunked::ChunkedArray as vortex::compute::unary::scalar_subtract::SubtractScalarFn>::subtract_scalar args=self,to_subtract ptype=F32
ChunkedArray.try_new(each(subtract_scalar(elem(chunks(self)), to_subtract)), dtype(self))
@ <vortex::array::primitive::PrimitiveArray as vortex::compute::unary::scalar_subtract::SubtractScalarFn>::subtract_scalar args=self,to_subtract ptype=F32
ConstantArray.new(Scalar(dtype(self), Null), len(self)) <- to_logical(validity(self), len(self)) is AllInvalid
PrimitiveArray.from_vec(each([-as_primitive(TryFrom.try_from(to_subtract).pvalue) + elem(maybe_null_slice(self))]), validity(self)) <- to_logical(validity(self), len(self)) is AllValid|Array
@ vortex::array::primitive::compute::subtract_scalar::subtract_scalar_integer args=array,to_subtract
array <- is_zero(to_subtract)
{PrimitiveArray.from_vec(each([elem(maybe_null_slice(array)) - to_subtract]), validity(array)) <- to_logical(validity(array), len(array)) is AllValid | PrimitiveArray.from_vec(each(wrapping_sub(elem(maybe_null_slice(array)), to_subtract)), validity(array)) <- to_logical(validity(array), len(array)) is AllInvalid|Array} <- !is_zero(to_subtract)
@ vortex::compute::unary::scalar_subtract::subtract_scalar args=array,to_subtract
or(subtract_scalar(subtract_scalar(array), to_subtract), subtract_scalar(array, to_subtract))
@ <vortex::array::bool::BoolArray as vortex::compute::boolean::AndFn>::and args=self,array
FromArrowArray.from_arrow(and(as_boolean(into_arrow(self)), as_boolean(into_arrow(array))), True)
@ <vortex::array::bool::BoolArray as vortex::compute::boolean::OrFn>::or args=self,array
FromArrowArray.from_arrow(or(as_boolean(into_arrow(self)), as_boolean(into_arrow(array))), True)
@ <vortex::array::constant::ConstantArray as vortex::compute::boolean::AndFn>::and args=self,array
ConstantArray.new({Scalar(Bool(Nullable), Bool(bitand(as_bool(scalar_at(array, 0).value), as_bool(scalar_value(self))))) <- as_bool(scalar_at(array, 0).value) is Some & as_bool(scalar_value(self)) is Some | Scalar(as_nullable(dtype(self)), Null) <- as_bool(scalar_at(array, 0).value) is None | Scalar(as_nullable(dtype(self)), Null) <- as_bool(scalar_value(self)) is None}, len(self)) <- Eq(True, TryFrom.try_from(get(statistics(array), IsConstant)))
and(and(array), self) <- !Eq(True, TryFrom.try_from(get(statistics(array), IsConstant)))
@ <vortex::array::constant::ConstantArray as vortex::compute::boolean::OrFn>::or args=self,array
ConstantArray.new({Scalar(Bool(Nullable), Bool(bitor(as_bool(scalar_at(array, 0).value), as_bool(scalar_value(self))))) <- as_bool(scalar_at(array, 0).value) is Some & as_bool(scalar_value(self)) is Some | Scalar(as_nullable(dtype(self)), Null) <- as_bool(scalar_at(array, 0).value) is None | Scalar(as_nullable(dtype(self)), Null) <- as_bool(scalar_value(self)) is None}, len(self)) <- Eq(True, TryFrom.try_from(get(statistics(array), IsConstant)))
or(or(array), self) <- !Eq(True, TryFrom.try_from(get(statistics(array), IsConstant)))
@ vortex::array::constant::compute::constant_array_bool_impl args=c,other
ConstantArray.new({Scalar(Bool(Nullable), Bool(icall(bool_op, (as_bool(scalar_value(c)), as_bool(scalar_at(other, 0).value))))) <- as_bool(scalar_at(other, 0).value) is Some & as_bool(scalar_value(c)) is Some | Scalar(as_nullable(dtype(c)), Null) <- as_bool(scalar_at(other, 0).value) is None | Scalar(as_nullable(dtype(c)), Null) <- as_bool(scalar_value(c)) is None}, len(c)) <- Eq(True, TryFrom.try_from(get(statistics(other), IsConstant)))
icall(fallback_fn, other, c) <- !Eq(True, TryFrom.try_from(get(statistics(other), IsConstant)))
@ vortex::compute::boolean::and args=lhs,rhs errs=1
or(and(and(lhs), rhs), or(and(and(rhs), lhs), and(lhs, rhs))) <- Eq(len(lhs), len(rhs)) & dtype(lhs) is Bool & dtype(rhs) is Bool
@ vortex::compute::boolean::or args=lhs,rhs errs=1
or(or(or(lhs), rhs), or(or(or(rhs), lhs), or(lhs, rhs))) <- Eq(len(lhs), len(rhs)) & dtype(lhs) is Bool & dtype(rhs) is Bool
'''
def run(c):
    spec.run_tables(c, (('kernel', KERN),), 'must denote the operation applied to every row', r'(CastFn>::cast|FillForwardFn>::fill_forward|SubtractScalarFn>::subtract_scalar|AndFn>::and|OrFn>::or)$', ('kernel', 20))
