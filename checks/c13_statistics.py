from lib import *
import spec
ID = 'C13'
TITLE = 'Statistics describe the array they belong to'
RULE = 'the normal form of every statistics accumulator (what each step leaves in each of its fields), of every compute_statistics implementation, of the merging of two statistics sets (including the conditions under which an entry is replaced or dropped) and of the accessors is compared with the form that denotes the statistic'
ACCUM = r'''
@ <vortex::array::primitive::stats::StatsAccumulator<T>>::n_nulls args=self,next out=1 voc=next,trailing_zeros
.null_count = [next + self.null_count]
.bit_widths = seti(self.bit_widths, 0, [index(self.bit_widths, 0) + next])
.trailing_zeros = seti(self.trailing_zeros, bit_width(PTYPE), [index(self.trailing_zeros, bit_width(PTYPE)) + next])
.len = [next + self.len]
@ <vortex::array::primitive::stats::StatsAccumulator<T>>::next args=self,next out=1 voc=next
.prev = next
.min = next <- compare(next, self.min) is Less
.min = self.min <- compare(next, self.min) is Equal|Greater
.max = next <- compare(next, self.max) is Greater & compare(next, self.min) is Equal|Greater
.max = self.max <- compare(next, self.max) is Equal|Less
.max = self.max <- compare(next, self.min) is Less
.is_sorted = False <- !is_eq(next, self.prev) & compare(next, self.prev) is Less
.is_sorted = self.is_sorted <- compare(next, self.prev) is Equal|Greater
.is_sorted = self.is_sorted <- is_eq(next, self.prev)
.is_strict_sorted = self.is_strict_sorted <- !is_eq(next, self.prev)
.is_strict_sorted = False <- is_eq(next, self.prev)
.run_count = [self.run_count + 1] <- !is_eq(next, self.prev)
.run_count = self.run_count <- is_eq(next, self.prev)
.nan_count = [self.nan_count + 1] <- is_nan(next)
.nan_count = self.nan_count <- !is_nan(next)
.bit_widths = seti(self.bit_widths, bit_width(next), [index(self.bit_widths, bit_width(next)) + 1])
.trailing_zeros = seti(self.trailing_zeros, trailing_zeros(next), [index(self.trailing_zeros, trailing_zeros(next)) + 1])
.len = [self.len + 1]
@ <vortex::array::primitive::stats::StatsAccumulator<T>>::nullable_next args=self,next out=1 voc=next,trailing_zeros
.prev = or(self.next(next).prev, self.prev)
.min = or(self.next(next).min, self.min)
.max = or(self.next(next).max, self.max)
.is_sorted = or(self.next(next).is_sorted, self.is_sorted)
.is_strict_sorted = or(self.next(next).is_strict_sorted, self.is_strict_sorted)
.run_count = or(self.next(next).run_count, self.run_count)
.null_count = or(self.next(next).null_count, [self.null_count + 1])
.nan_count = or(self.next(next).nan_count, self.nan_count)
.bit_widths = or(self.next(next).bit_widths, seti(self.bit_widths, 0, [index(self.bit_widths, 0) + 1]))
.trailing_zeros = or(self.next(next).trailing_zeros, seti(self.trailing_zeros, bit_width(PTYPE), [index(self.trailing_zeros, bit_width(PTYPE)) + 1]))
.len = or(self.next(next).len, [self.len + 1])
@ <vortex::array::primitive::stats::StatsAccumulator<T>>::new args=first
StatsAccumulator(first, first, first, True, True, 1, 0, or(optfilter(1, is_nan(first)), 0), seti(from_elem(0, [8*size_of() + 1]), bit_width(first), [index(from_elem(0, [8*size_of() + 1]), bit_width(first)) + 1]), seti(from_elem(0, [8*size_of() + 1]), trailing_zeros(first), [index(from_elem(0, [8*size_of() + 1]), trailing_zeros(first)) + 1]), 1)
@ <vortex::array::primitive::stats::StatsAccumulator<T>>::finish args=self
StatsSet([(Min, Scalar(dtype(), self.min)), (Max, Scalar(dtype(), self.max)), (NullCount, Scalar(dtype(), self.null_count)), (IsConstant, Scalar(Bool(NonNullable), Bool(!and(!Eq(self.len, self.null_count), !and(Eq(0, self.nan_count), Eq(0, self.null_count), is_eq(self.min, self.max)))))), (BitWidthFreq, Scalar(dtype(), self.bit_widths)), (TrailingZeroFreq, Scalar(dtype(), self.trailing_zeros)), (IsSorted, Scalar(Bool(NonNullable), Bool(self.is_sorted))), (IsStrictSorted, Scalar(Bool(NonNullable), Bool(and(self.is_sorted, self.is_strict_sorted)))), (RunCount, Scalar(dtype(), self.run_count))])
@ <vortex::array::bool::stats::BoolStatsAccumulator>::n_nulls args=self,next out=1 voc=next
.null_count = [next + self.null_count]
.len = [next + self.len]
@ <vortex::array::bool::stats::BoolStatsAccumulator>::next args=self,next out=1 voc=next
.prev = next <- !Eq(next, self.prev)
.prev = self.prev <- Eq(next, self.prev)
.is_sorted = !and(!and(!self.prev, self.is_sorted), !and(next, self.is_sorted))
.run_count = [self.run_count + 1] <- !Eq(next, self.prev)
.run_count = self.run_count <- Eq(next, self.prev)
.true_count = [self.true_count + 1] <- next
.true_count = self.true_count <- !next
.len = [self.len + 1]
@ <vortex::array::bool::stats::BoolStatsAccumulator>::nullable_next args=self,next out=1 voc=next
.prev = or(self.next(next).prev, self.prev)
.is_sorted = or(self.next(next).is_sorted, self.is_sorted)
.run_count = or(self.next(next).run_count, self.run_count)
.null_count = or(self.next(next).null_count, [self.null_count + 1])
.true_count = or(self.next(next).true_count, self.true_count)
.len = or(self.next(next).len, [self.len + 1])
@ <vortex_roaring::boolean::stats::RoaringBoolStatsAccumulator>::next args=self,next out=1 voc=next
.prev = !Eq(0, rem(shr(next, elem(0..64)), 2)) <- !Eq(!Eq(0, rem(shr(next, elem(0..64)), 2)), loop{!Eq(0, rem(shr(next, elem(0..64)), 2)) <- !loop | self.prev})
.prev = loop{!Eq(0, rem(shr(next, elem(0..64)), 2)) <- !Eq(!Eq(0, rem(shr(next, elem(0..64)), 2)), loop) | self.prev} <- Eq(!Eq(0, rem(shr(next, elem(0..64)), 2)), loop{!Eq(0, rem(shr(next, elem(0..64)), 2)) <- !loop | self.prev})
.prev = self.prev
.is_sorted = False
.is_sorted = loop{False <- Eq(0, rem(shr(next, elem(0..64)), 2)) | self.is_sorted}
.is_sorted = self.is_sorted
.run_count = [loop{loop | self.run_count} + 1] <- !Eq(!Eq(0, rem(shr(next, elem(0..64)), 2)), loop{!Eq(0, rem(shr(next, elem(0..64)), 2)) <- !loop | self.prev})
.run_count = loop{[loop + 1] <- !Eq(!Eq(0, rem(shr(next, elem(0..64)), 2)), loop{!Eq(0, rem(shr(next, elem(0..64)), 2)) <- !loop | self.prev}) | self.run_count} <- Eq(!Eq(0, rem(shr(next, elem(0..64)), 2)), loop{!Eq(0, rem(shr(next, elem(0..64)), 2)) <- !loop | self.prev})
.run_count = self.run_count
.len = [self.len + 64]
@ <vortex_roaring::boolean::stats::RoaringBoolStatsAccumulator>::next_up_to_length args=self,next,len out=1 voc=next
.prev = !Eq(0, rem(shr(next, elem(0..len)), 2)) <- !Eq(!Eq(0, rem(shr(next, elem(0..len)), 2)), loop{!Eq(0, rem(shr(next, elem(0..len)), 2)) <- !loop | self.prev})
.prev = loop{!Eq(0, rem(shr(next, elem(0..len)), 2)) <- !Eq(!Eq(0, rem(shr(next, elem(0..len)), 2)), loop) | self.prev} <- Eq(!Eq(0, rem(shr(next, elem(0..len)), 2)), loop{!Eq(0, rem(shr(next, elem(0..len)), 2)) <- !loop | self.prev})
.prev = self.prev
.is_sorted = False
.is_sorted = loop{False <- Eq(0, rem(shr(next, elem(0..len)), 2)) | self.is_sorted}
.is_sorted = self.is_sorted
.run_count = [loop{loop | self.run_count} + 1] <- !Eq(!Eq(0, rem(shr(next, elem(0..len)), 2)), loop{!Eq(0, rem(shr(next, elem(0..len)), 2)) <- !loop | self.prev})
.run_count = loop{[loop + 1] <- !Eq(!Eq(0, rem(shr(next, elem(0..len)), 2)), loop{!Eq(0, rem(shr(next, elem(0..len)), 2)) <- !loop | self.prev}) | self.run_count} <- Eq(!Eq(0, rem(shr(next, elem(0..len)), 2)), loop{!Eq(0, rem(shr(next, elem(0..len)), 2)) <- !loop | self.prev})
.run_count = self.run_count
.len = [len + self.len]
@ <vortex::array::bool::stats::BoolStatsAccumulator>::new args=first
BoolStatsAccumulator(first, True, 1, 0, {0 <- !first | 1 <- first}, 1)
@ <vortex_roaring::boolean::stats::RoaringBoolStatsAccumulator>::new args=first
RoaringBoolStatsAccumulator(first, True, 1, 0)
@ <vortex::array::bool::stats::BoolStatsAccumulator>::finish args=self,cardinality
StatsSet([(Min, Scalar(Bool(NonNullable), Bool(Eq([self.null_count + self.true_count], self.len)))), (Max, Scalar(Bool(NonNullable), Bool(!Eq(0, self.true_count)))), (IsConstant, Scalar(Bool(NonNullable), Bool(!and(!Eq(self.len, self.null_count), !and(Eq(0, self.null_count), Eq(0, self.true_count)), !and(Eq(0, self.null_count), Eq(self.len, self.true_count)))))), (IsSorted, Scalar(Bool(NonNullable), Bool(self.is_sorted))), (IsStrictSorted, Scalar(Bool(NonNullable), Bool(!and(!and(!Lt(1, self.len), self.is_sorted), !and(Eq(1, self.true_count), Eq(2, self.len), self.is_sorted))))), (RunCount, Scalar(dtype(), self.run_count)), (TrueCount, Scalar(dtype(), self.true_count)), (NullCount, Scalar(dtype(), self.null_count))])
@ <vortex_roaring::boolean::stats::RoaringBoolStatsAccumulator>::finish args=self,cardinality
StatsSet([(IsSorted, Scalar(Bool(NonNullable), Bool(self.is_sorted))), (IsStrictSorted, Scalar(Bool(NonNullable), Bool(!and(!and(!Lt(1, self.len), self.is_sorted), !and(Eq(1, cardinality), Eq(2, self.len), self.is_sorted))))), (RunCount, Scalar(dtype(), self.run_count))])
@ <vortex::array::varbin::stats::VarBinAccumulator>::n_nulls args=self,next out=1 voc=next
.null_count = [next + self.null_count]
.len = [next + self.len]
@ <vortex::array::varbin::stats::VarBinAccumulator>::next args=self,next out=1 voc=next
.min = next <- Lt(next, self.min)
.min = self.min <- !Lt(next, self.min)
.max = next <- !Lt(next, self.min) & Lt(self.max, next)
.max = self.max <- !Lt(self.max, next)
.max = self.max <- Lt(next, self.min)
.is_sorted = False <- cmp(next, self.last_value) is Less
.is_sorted = self.is_sorted <- cmp(next, self.last_value) is Equal|Greater
.is_strict_sorted = False <- cmp(next, self.last_value) is Equal|Less
.is_strict_sorted = self.is_strict_sorted <- cmp(next, self.last_value) is Greater
.last_value = next <- cmp(next, self.last_value) is Greater|Less
.last_value = self.last_value <- cmp(next, self.last_value) is Equal
.runs = [self.runs + 1] <- cmp(next, self.last_value) is Greater|Less
.runs = self.runs <- cmp(next, self.last_value) is Equal
.len = [self.len + 1]
@ <vortex::array::varbin::stats::VarBinAccumulator>::nullable_next args=self,next out=1 voc=next
.min = or(self.next(next).min, self.min)
.max = or(self.next(next).max, self.max)
.is_sorted = or(self.next(next).is_sorted, self.is_sorted)
.is_strict_sorted = or(self.next(next).is_strict_sorted, self.is_strict_sorted)
.last_value = or(self.next(next).last_value, self.last_value)
.null_count = or(self.next(next).null_count, [self.null_count + 1])
.runs = or(self.next(next).runs, self.runs)
.len = or(self.next(next).len, [self.len + 1])
@ <vortex::array::varbin::stats::VarBinAccumulator>::new args=first
VarBinAccumulator(first, first, True, True, first, 0, 1, 1)
@ <vortex::array::varbin::stats::VarBinAccumulator>::finish args=self,dtype
StatsSet([(Min, varbin_scalar(Arrow(self.min), dtype)), (Max, varbin_scalar(Arrow(self.max), dtype)), (RunCount, Scalar(dtype(), self.runs)), (IsSorted, Scalar(Bool(NonNullable), Bool(self.is_sorted))), (IsStrictSorted, Scalar(Bool(NonNullable), Bool(self.is_strict_sorted))), (IsConstant, Scalar(Bool(NonNullable), Bool(!and(!Eq(self.len, self.null_count), !and(Eq(0, self.null_count), Eq(self.max, self.min)))))), (NullCount, Scalar(dtype(), self.null_count))])
@ vortex::array::varbin::varbin_scalar args=value,dtype
Scalar(Binary(nullability(dtype)), Buffer(value)) <- dtype is Binary|Bool|Extension|List|Null|Primitive|Struct
Scalar(Utf8(nullability(dtype)), BufferString(try_into(value))) <- dtype is Utf8
@ vortex::array::varbin::stats::compute_stats args=iter,dtype voc=nullable_next,n_nulls
finish(loop{VarBinAccumulator(elem(iter), elem(iter), True, True, elem(iter), 0, 1, 1).n_nulls(sum(each(1))) | loop.nullable_next(elem(iter))}, dtype) <- next(iter) is Some
nulls(sum(each(1)), dtype) <- next(iter) is None
'''
COMP = r'''
@ vortex::array::varbin::stats::compute_stats args=iter,dtype voc=nullable_next,n_nulls
finish(loop{VarBinAccumulator(elem(iter), elem(iter), True, True, elem(iter), 0, 1, 1).n_nulls(sum(each(1))) | loop.nullable_next(elem(iter))}, dtype) <- next(iter) is Some
nulls(sum(each(1)), dtype) <- next(iter) is None
@ <&[T] as vortex::stats::ArrayStatisticsCompute>::compute_statistics args=self,stat ptype=I32 voc=next
StatsSet(HashMap.new()) <- Eq(0, len(self))
finish(loop{StatsAccumulator(index(self, 0), index(self, 0), index(self, 0), True, True, 1, 0, or(optfilter(1, is_nan(index(self, 0))), 0), seti(from_elem(0, [8*size_of() + 1]), bit_width(index(self, 0)), [index(from_elem(0, [8*size_of() + 1]), bit_width(index(self, 0))) + 1]), seti(from_elem(0, [8*size_of() + 1]), trailing_zeros(index(self, 0)), [index(from_elem(0, [8*size_of() + 1]), trailing_zeros(index(self, 0))) + 1]), 1) | loop.next(nth(elem(self), 1))}) <- !Eq(0, len(self))
@ <arrow_buffer::buffer::boolean::BooleanBuffer as vortex::stats::ArrayStatisticsCompute>::compute_statistics args=self,stat ptype=I32 voc=next
finish(loop{BoolStatsAccumulator(value(self, 0), True, 1, 0, {0 <- !value(self, 0) | 1 <- value(self, 0)}, 1) | loop.next(nth(elem(self), 1))})
@ <vortex::array::bool::BoolArray as vortex::stats::ArrayStatisticsCompute>::compute_statistics args=self,stat ptype=I32
StatsSet(HashMap.new()) <- Eq(0, len(self))
compute_statistics(NullableBools(boolean_buffer(self), boolean_buffer(to_logical(validity(self), len(self))@Array.0)), stat) <- !Eq(0, len(self)) & to_logical(validity(self), len(self)) is Array
compute_statistics(boolean_buffer(self), stat) <- !Eq(0, len(self)) & to_logical(validity(self), len(self)) is AllValid
nulls(to_logical(validity(self), len(self))@AllInvalid.0, dtype(self)) <- !Eq(0, len(self)) & to_logical(validity(self), len(self)) is AllInvalid
@ <vortex::array::bool::stats::NullableBools as vortex::stats::ArrayStatisticsCompute>::compute_statistics args=self,stat ptype=I32 voc=nullable_next,n_nulls
finish(loop{BoolStatsAccumulator(value(self.0, pos(self.1)), True, 1, 0, {0 <- !value(self.0, pos(self.1)) | 1 <- value(self.0, pos(self.1))}, 1).n_nulls(pos(self.1)) | loop.nullable_next(optfilter(nth((elem(self.0), elem(self.1)), [pos(self.1) + 1]).0, nth((elem(self.0), elem(self.1)), [pos(self.1) + 1]).1))}) <- next(each(pos(self.1) if !elem(self.1))) is Some
nulls(len(self.0), Bool(Nullable)) <- next(each(pos(self.1) if !elem(self.1))) is None
@ <vortex::array::chunked::ChunkedArray as vortex::stats::ArrayStatisticsCompute>::compute_statistics args=self,stat ptype=I32 voc=merge
or(fold(each(to_set(elem(chunks(self))@*)), (), acc.merge(to_set(elem(chunks(self))@*))), default(vortex::stats::statsset::StatsSet))
@ <vortex::array::constant::ConstantArray as vortex::stats::ArrayStatisticsCompute>::compute_statistics args=self,stat ptype=I32
StatsSet({[(IsConstant, Scalar(Bool(NonNullable), Bool(True)))] <- scalar_value(self) is Buffer|BufferString|List|Null|Primitive | [(IsConstant, Scalar(Bool(NonNullable), Bool(True)))].insert(TrueCount, Scalar(dtype(), {0 <- !scalar_value(self)@Bool.0 | len(self) <- scalar_value(self)@Bool.0})) <- scalar_value(self) is Bool})
@ <vortex::array::null::NullArray as vortex::stats::ArrayStatisticsCompute>::compute_statistics args=self,stat ptype=I32
nulls(len(self), Null)
@ <vortex::array::primitive::PrimitiveArray as vortex::stats::ArrayStatisticsCompute>::compute_statistics args=self,stat ptype=I32
compute_statistics(NullableValues(maybe_null_slice(self), BooleanBuffer.new(into_arrow(buffer(to_logical(validity(self), len(self))@Array.0)), first_byte_bit_offset(to_logical(validity(self), len(self))@Array.0), len(to_logical(validity(self), len(self))@Array.0))), stat) <- to_logical(validity(self), len(self)) is Array
compute_statistics(maybe_null_slice(self), stat) <- to_logical(validity(self), len(self)) is AllValid
nulls(to_logical(validity(self), len(self))@AllInvalid.0, dtype(self)) <- to_logical(validity(self), len(self)) is AllInvalid
@ <vortex::array::primitive::stats::NullableValues<T> as vortex::stats::ArrayStatisticsCompute>::compute_statistics args=self,stat ptype=I32 voc=nullable_next,n_nulls
StatsSet(HashMap.new()) <- Eq(0, len(self.0))
finish(loop{StatsAccumulator(index(self.0, pos(self.1)), index(self.0, pos(self.1)), index(self.0, pos(self.1)), True, True, 1, 0, or(optfilter(1, is_nan(index(self.0, pos(self.1)))), 0), seti(from_elem(0, [8*size_of() + 1]), bit_width(index(self.0, pos(self.1))), [index(from_elem(0, [8*size_of() + 1]), bit_width(index(self.0, pos(self.1)))) + 1]), seti(from_elem(0, [8*size_of() + 1]), trailing_zeros(index(self.0, pos(self.1))), [index(from_elem(0, [8*size_of() + 1]), trailing_zeros(index(self.0, pos(self.1)))) + 1]), 1).n_nulls(pos(self.1)) | loop.nullable_next(optfilter(nth((elem(self.0), elem(self.1)), [pos(self.1) + 1]).0, nth((elem(self.0), elem(self.1)), [pos(self.1) + 1]).1))}) <- !Eq(0, len(self.0)) & next(each(pos(self.1) if !elem(self.1))) is Some
nulls(len(self.0), Primitive(PTYPE, Nullable)) <- !Eq(0, len(self.0)) & next(each(pos(self.1) if !elem(self.1))) is None
@ <vortex::array::varbin::VarBinArray as vortex::stats::ArrayStatisticsCompute>::compute_statistics args=self,stat ptype=I32 voc=with_iterator
ArrayAccessor.with_iterator(self, fn(compute_stats($0, dtype(self)))) <- !Eq(0, len(self))
StatsSet(HashMap.new()) <- Eq(0, len(self))
@ <vortex::array::varbinview::VarBinViewArray as vortex::stats::ArrayStatisticsCompute>::compute_statistics args=self,stat ptype=I32 voc=with_iterator
ArrayAccessor.with_iterator(self, fn(compute_stats($0, dtype(self)))) <- !Eq(0, len(self))
StatsSet(HashMap.new()) <- Eq(0, len(self))
@ <vortex_bytebool::array::ByteBoolArray as vortex::stats::ArrayStatisticsCompute>::compute_statistics args=self,stat ptype=I32
StatsSet(HashMap.new()) <- Eq(0, len(self))
compute_statistics(self, stat) <- !Eq(0, len(self))
@ <vortex_roaring::boolean::RoaringBoolArray as vortex::stats::ArrayStatisticsCompute>::compute_statistics args=self,stat ptype=I32
StatsSet(HashMap.new()) <- Eq(0, len(self))
compute_statistics(BitmapStats(to_bitset(bitmap(self)), len(self), statistics(bitmap(self)).cardinality), stat) <- !Eq(0, len(self))
@ <vortex_roaring::boolean::stats::BitmapStats as vortex::stats::ArrayStatisticsCompute>::compute_statistics args=self,stat ptype=I32 voc=next
finish(loop{with(loop.is_sorted=False) <- Eq(!Eq(0, rem(shr(or(optfilter(index(self.0, div(self.1, 64)), Lt(div(self.1, 64), len(self.0))), 0), elem(0..rem(self.1, 64))), 2)), loop{!Eq(0, rem(shr(or(optfilter(index(self.0, div(self.1, 64)), Lt(div(self.1, 64), len(self.0))), 0), elem(0..rem(self.1, 64))), 2)) <- !loop | loop{RoaringBoolStatsAccumulator(!Eq(0, rem(or(optfilter(index(self.0, 0), !Eq(0, len(self.0))), 0), 2)), True, 1, 0) | loop.next(or(optfilter(index(self.0, elem(0..div(self.1, 64))), Lt(elem(0..div(self.1, 64)), len(self.0))), 0))}.prev}) & Eq(0, rem(shr(or(optfilter(index(self.0, div(self.1, 64)), Lt(div(self.1, 64), len(self.0))), 0), elem(0..rem(self.1, 64))), 2)) | with(loop{RoaringBoolStatsAccumulator(!Eq(0, rem(or(optfilter(index(self.0, 0), !Eq(0, len(self.0))), 0), 2)), True, 1, 0) | loop.next(or(optfilter(index(self.0, elem(0..div(self.1, 64))), Lt(elem(0..div(self.1, 64)), len(self.0))), 0))}.len=[loop{RoaringBoolStatsAccumulator(!Eq(0, rem(or(optfilter(index(self.0, 0), !Eq(0, len(self.0))), 0), 2)), True, 1, 0) | loop.next(or(optfilter(index(self.0, elem(0..div(self.1, 64))), Lt(elem(0..div(self.1, 64)), len(self.0))), 0))}.len + rem(self.1, 64)]) | with(with({loop | with(loop.is_sorted=False) <- Eq(0, rem(shr(or(optfilter(index(self.0, div(self.1, 64)), Lt(div(self.1, 64), len(self.0))), 0), elem(0..rem(self.1, 64))), 2))}.run_count=[loop{loop | loop{RoaringBoolStatsAccumulator(!Eq(0, rem(or(optfilter(index(self.0, 0), !Eq(0, len(self.0))), 0), 2)), True, 1, 0) | loop.next(or(optfilter(index(self.0, elem(0..div(self.1, 64))), Lt(elem(0..div(self.1, 64)), len(self.0))), 0))}.run_count} + 1]).prev=!Eq(0, rem(shr(or(optfilter(index(self.0, div(self.1, 64)), Lt(div(self.1, 64), len(self.0))), 0), elem(0..rem(self.1, 64))), 2))) <- !Eq(!Eq(0, rem(shr(or(optfilter(index(self.0, div(self.1, 64)), Lt(div(self.1, 64), len(self.0))), 0), elem(0..rem(self.1, 64))), 2)), loop{!Eq(0, rem(shr(or(optfilter(index(self.0, div(self.1, 64)), Lt(div(self.1, 64), len(self.0))), 0), elem(0..rem(self.1, 64))), 2)) <- !loop | loop{RoaringBoolStatsAccumulator(!Eq(0, rem(or(optfilter(index(self.0, 0), !Eq(0, len(self.0))), 0), 2)), True, 1, 0) | loop.next(or(optfilter(index(self.0, elem(0..div(self.1, 64))), Lt(elem(0..div(self.1, 64)), len(self.0))), 0))}.prev})}, self.2)
@ <vortex_roaring::integer::RoaringIntArray as vortex::stats::ArrayStatisticsCompute>::compute_statistics args=self,stat ptype=I32
StatsSet(HashMap.new()) <- stat is IsConstant|IsSorted|IsStrictSorted|Max|Min|NullCount|TrueCount
to_set(self@*) <- stat is BitWidthFreq|RunCount|TrailingZeroFreq
@ <vortex_dict::array::DictArray as vortex::stats::ArrayStatisticsCompute>::compute_statistics args=self,stat ptype=I32 calls=insert#1,2 under=all each=1 voc=compute n=7
insert(IsConstant, compute(codes(self)@*, IsConstant)) <- compute(codes(self)@*, IsConstant) is Some
insert(IsSorted, compute(codes(self)@*, IsSorted)) <- Eq(True, TryFrom.try_from(compute(values(self)@*, IsSorted))) & compute(codes(self)@*, IsSorted) is Some
insert(IsStrictSorted, compute(codes(self)@*, IsStrictSorted)) <- Eq(True, TryFrom.try_from(compute(values(self)@*, IsSorted))) & compute(codes(self)@*, IsStrictSorted) is Some
insert(Max, compute(values(self)@*, Max)) <- compute(values(self)@*, Max) is Some
insert(Min, compute(values(self)@*, Min)) <- compute(values(self)@*, Min) is Some
insert(NullCount, Scalar(dtype(), {0 <- nullability(dtype(self)) is NonNullable | [-TryFrom.try_from(compute(BoolArray.try_new(each(!Eq(0, elem(maybe_null_slice(codes(self))))), NonNullable)@*, TrueCount)) + len(BoolArray.try_new(each(!Eq(0, elem(maybe_null_slice(codes(self))))), NonNullable))] <- nullability(dtype(self)) is Nullable}))
insert(RunCount, compute(codes(self)@*, RunCount)) <- compute(codes(self)@*, RunCount) is Some
'''
MERGE = r'''
@ <vortex::stats::statsset::StatsSet>::merge args=self,other out=1 voc=merge_bit_width_freq,merge_trailing_zero_freq,merge_is_constant,merge_is_sorted,merge_is_strict_sorted,merge_max,merge_min,merge_run_count,merge_true_count,merge_null_count
.values = loop{loop.merge_bit_width_freq(other) | loop.merge_is_constant(other) | loop.merge_is_sorted(other) | loop.merge_is_strict_sorted(other) | loop.merge_max(other) | loop.merge_min(other) | loop.merge_null_count(other) | loop.merge_run_count(other) | loop.merge_trailing_zero_freq(other) | loop.merge_true_count(other) | self}.values
@ <vortex::stats::statsset::StatsSet>::merge_bit_width_freq args=self,other voc=merge_freq_stat out=1
.values = self.merge_freq_stat(other, BitWidthFreq).values
@ <vortex::stats::statsset::StatsSet>::merge_is_sorted args=self,other voc=merge_sortedness_stat out=1
.values = self.merge_sortedness_stat(other, IsSorted, fn(!Lt($1, $0))).values
@ <vortex::stats::statsset::StatsSet>::merge_is_strict_sorted args=self,other voc=merge_sortedness_stat out=1
.values = self.merge_sortedness_stat(other, IsStrictSorted, fn(Lt($0, $1))).values
@ <vortex::stats::statsset::StatsSet>::merge_max args=self,other voc=merge_ordered out=1
.values = self.merge_ordered(Max, other, fn(Lt($1, $0))).values
@ <vortex::stats::statsset::StatsSet>::merge_min args=self,other voc=merge_ordered out=1
.values = self.merge_ordered(Min, other, fn(Lt($0, $1))).values
@ <vortex::stats::statsset::StatsSet>::merge_null_count args=self,other voc=merge_scalar_stat out=1
.values = self.merge_scalar_stat(other, NullCount).values
@ <vortex::stats::statsset::StatsSet>::merge_trailing_zero_freq args=self,other voc=merge_freq_stat out=1
.values = self.merge_freq_stat(other, TrailingZeroFreq).values
@ <vortex::stats::statsset::StatsSet>::merge_true_count args=self,other voc=merge_scalar_stat out=1
.values = self.merge_scalar_stat(other, TrueCount).values
@ <vortex::stats::statsset::StatsSet>::merge_ordered args=self,stat,other,cmp voc=get,get_as,entry calls=insert under=all n=1
insert(entry(self.values, stat)@Occupied.0, get(other, stat)) <- !is_null(get(other, stat)) & entry(self.values, stat) is Occupied & get(other, stat) is Some & icall(cmp, get(other, stat), get(entry(self.values, stat)@Occupied.0))
insert(entry(self.values, stat)@Occupied.0, get(other, stat)) <- entry(self.values, stat) is Occupied & get(other, stat) is Some & is_null(get(entry(self.values, stat)@Occupied.0))
@ <vortex::stats::statsset::StatsSet>::merge_ordered args=self,stat,other,cmp voc=get,get_as,entry calls=remove under=all n=1
remove(entry(self.values, stat)@Occupied.0) <- entry(self.values, stat) is Occupied & get(other, stat) is None
@ <vortex::stats::statsset::StatsSet>::merge_sortedness_stat args=self,other,stat,cmp voc=get,get_as,entry calls=insert under=all n=1
insert(self.values, stat, Scalar(Bool(NonNullable), Bool(False))) <- !get_as(other, stat) & get(other, Min) is Some & get(self, Max) is Some & get_as(other, stat) is Some & get_as(self, stat) is Some
insert(self.values, stat, Scalar(Bool(NonNullable), Bool(False))) <- !get_as(self, stat) & get(other, Min) is Some & get(self, Max) is Some & get_as(other, stat) is Some & get_as(self, stat) is Some
insert(self.values, stat, Scalar(Bool(NonNullable), Bool(False))) <- !icall(cmp, get(self, Max), get(other, Min)) & get(other, Min) is Some & get(self, Max) is Some & get_as(other, stat) is Some & get_as(self, stat) is Some & is_valid(other, Min) & is_valid(self, Max)
@ <vortex::stats::statsset::StatsSet>::merge_sortedness_stat args=self,other,stat,cmp voc=get,get_as,entry calls=remove under=all each=1 n=2
remove(self.values, stat) <- get(other, Min) is None & get_as(other, stat) is Some & get_as(self, stat) is Some
remove(self.values, stat) <- get(self, Max) is None & get_as(other, stat) is Some & get_as(self, stat) is Some
remove(self.values, stat) <- get_as(other, stat) is None & get_as(self, stat) is Some
@ <vortex::stats::statsset::StatsSet>::merge_is_constant args=self,other voc=get,get_as,entry calls=insert under=all each=1 n=2
insert(self.values, IsConstant, Scalar(Bool(NonNullable), Bool(Eq(get(other, Min).value, get(self, Min).value)))) <- !Eq(False, get_as(other, IsConstant)) & get(other, Min) is Some & get(self, Min) is Some & get_as(other, IsConstant) is Some & get_as(self, IsConstant) & get_as(self, IsConstant) is Some
insert(self.values, IsConstant, Scalar(Bool(NonNullable), Bool(False))) <- !get_as(self, IsConstant) & get_as(self, IsConstant) is Some
insert(self.values, IsConstant, Scalar(Bool(NonNullable), Bool(False))) <- Eq(False, get_as(other, IsConstant)) & get_as(self, IsConstant) is Some
@ <vortex::stats::statsset::StatsSet>::merge_is_constant args=self,other voc=get,get_as,entry calls=remove under=all n=1
remove(self.values, IsConstant) <- !Eq(False, get_as(other, IsConstant)) & get(other, Min) is None & get_as(self, IsConstant) & get_as(self, IsConstant) is Some
remove(self.values, IsConstant) <- !Eq(False, get_as(other, IsConstant)) & get(self, Min) is None & get_as(self, IsConstant) & get_as(self, IsConstant) is Some
remove(self.values, IsConstant) <- get_as(other, IsConstant) is None & get_as(self, IsConstant) & get_as(self, IsConstant) is Some
@ <vortex::stats::statsset::StatsSet>::merge_run_count args=self,other voc=get,get_as,entry calls=insert under=all n=1
insert(entry(self.values, RunCount)@Occupied.0, Scalar(dtype(), [TryFrom.try_from(get(entry(self.values, RunCount)@Occupied.0)) + get_as(other, RunCount) + 1])) <- entry(self.values, RunCount) is Occupied & get_as(other, RunCount) is Some
@ <vortex::stats::statsset::StatsSet>::merge_run_count args=self,other voc=get,get_as,entry calls=remove under=all n=1
remove(entry(self.values, RunCount)@Occupied.0) <- entry(self.values, RunCount) is Occupied & get_as(other, RunCount) is None
@ <vortex::stats::statsset::StatsSet>::merge_freq_stat args=self,other,stat voc=get,get_as,entry calls=insert under=all n=1
insert(entry(self.values, stat)@Occupied.0, Scalar(dtype(), each([elem(TryFrom.try_from(get(entry(self.values, stat)@Occupied.0))) + elem(get_as(other, stat))]))) <- entry(self.values, stat) is Occupied & get_as(other, stat) is Some
@ <vortex::stats::statsset::StatsSet>::merge_scalar_stat args=self,other,stat voc=get,get_as,entry calls=insert under=all n=1
insert(entry(self.values, stat)@Occupied.0, Scalar(dtype(), [TryFrom.try_from(get(entry(self.values, stat)@Occupied.0)) + get_as(other, stat)])) <- entry(self.values, stat) is Occupied & get_as(other, stat) is Some
@ <vortex::stats::statsset::StatsSet>::merge_freq_stat args=self,other,stat voc=get,get_as,entry calls=remove under=all n=1
remove(entry(self.values, stat)@Occupied.0) <- entry(self.values, stat) is Occupied & get_as(other, stat) is None
@ <vortex::stats::statsset::StatsSet>::merge_scalar_stat args=self,other,stat voc=get,get_as,entry calls=remove under=all n=1
remove(entry(self.values, stat)@Occupied.0) <- entry(self.values, stat) is Occupied & get_as(other, stat) is None
'''
ACCESS = r'''
@ <vortex::stats::statsset::StatsSet>::nulls args=len,dtype
StatsSet({[(Min, Scalar(dtype, Null)), (Max, Scalar(dtype, Null)), (IsConstant, Scalar(Bool(NonNullable), Bool(True))), (IsSorted, Scalar(Bool(NonNullable), Bool(True))), (IsStrictSorted, Scalar(Bool(NonNullable), Bool(!Lt(1, len)))), (RunCount, Scalar(dtype(), 1)), (NullCount, Scalar(dtype(), len))] <- dtype is Binary|Extension|List|Null|Struct|Utf8 | [(Min, Scalar(dtype, Null)), (Max, Scalar(dtype, Null)), (IsConstant, Scalar(Bool(NonNullable), Bool(True))), (IsSorted, Scalar(Bool(NonNullable), Bool(True))), (IsStrictSorted, Scalar(Bool(NonNullable), Bool(!Lt(1, len)))), (RunCount, Scalar(dtype(), 1)), (NullCount, Scalar(dtype(), len))].insert(BitWidthFreq, Scalar(dtype(), seti(from_elem(0, [8*byte_width(dtype@Primitive.0) + 1]), 0, len))).insert(TrailingZeroFreq, Scalar(dtype(), seti(from_elem(0, [8*byte_width(dtype@Primitive.0) + 1]), [8*byte_width(dtype@Primitive.0)], len))) <- dtype is Primitive | [(Min, Scalar(dtype, Null)), (Max, Scalar(dtype, Null)), (IsConstant, Scalar(Bool(NonNullable), Bool(True))), (IsSorted, Scalar(Bool(NonNullable), Bool(True))), (IsStrictSorted, Scalar(Bool(NonNullable), Bool(!Lt(1, len)))), (RunCount, Scalar(dtype(), 1)), (NullCount, Scalar(dtype(), len))].insert(TrueCount, Scalar(dtype(), 0)) <- dtype is Bool})
@ <vortex::stats::statsset::StatsSet>::get args=self,stat,value
get(self.values, stat)
@ <vortex::stats::statsset::StatsSet>::is_null args=self,stat,value
Eq(True, is_null(get(self, stat)))
@ <vortex::stats::statsset::StatsSet>::of args=self,stat,value
StatsSet([(self, stat)])
@ <vortex::data::ArrayData as vortex::stats::Statistics>::get args=self,stat,value voc=compute_statistics,read,write
get(read(self.stats_map), stat)
@ <vortex::view::ArrayView as vortex::stats::Statistics>::get args=self,stat,value
None
Scalar(Bool(NonNullable), Bool(get(get(Table.new(self.flatbuffer@*, self.flatbuffer_loc), 12, None)._tab, 10, None))) <- get(Table.new(self.flatbuffer@*, self.flatbuffer_loc), 12, None) is Some & stat is IsStrictSorted
Scalar(Bool(NonNullable), Bool(get(get(Table.new(self.flatbuffer@*, self.flatbuffer_loc), 12, None)._tab, 12, None))) <- get(Table.new(self.flatbuffer@*, self.flatbuffer_loc), 12, None) is Some & stat is IsConstant
Scalar(Bool(NonNullable), Bool(get(get(Table.new(self.flatbuffer@*, self.flatbuffer_loc), 12, None)._tab, 8, None))) <- get(Table.new(self.flatbuffer@*, self.flatbuffer_loc), 12, None) is Some & stat is IsSorted
Scalar(List(Primitive(U64, NonNullable), NonNullable), List(each(Primitive(U64(elem(get(get(Table.new(self.flatbuffer@*, self.flatbuffer_loc), 12, None)._tab, 20, None))))))) <- get(Table.new(self.flatbuffer@*, self.flatbuffer_loc), 12, None) is Some & stat is BitWidthFreq
Scalar(dtype(), get(get(Table.new(self.flatbuffer@*, self.flatbuffer_loc), 12, None)._tab, 14, None)) <- get(Table.new(self.flatbuffer@*, self.flatbuffer_loc), 12, None) is Some & stat is RunCount
Scalar(dtype(), get(get(Table.new(self.flatbuffer@*, self.flatbuffer_loc), 12, None)._tab, 16, None)) <- get(Table.new(self.flatbuffer@*, self.flatbuffer_loc), 12, None) is Some & stat is TrueCount
Scalar(dtype(), get(get(Table.new(self.flatbuffer@*, self.flatbuffer_loc), 12, None)._tab, 18, None)) <- get(Table.new(self.flatbuffer@*, self.flatbuffer_loc), 12, None) is Some & stat is NullCount
Scalar(dtype(), get(get(Table.new(self.flatbuffer@*, self.flatbuffer_loc), 12, None)._tab, 22, None)) <- get(Table.new(self.flatbuffer@*, self.flatbuffer_loc), 12, None) is Some & stat is TrailingZeroFreq
Scalar(dtype(self), TryFrom.try_from(get(get(Table.new(self.flatbuffer@*, self.flatbuffer_loc), 12, None)._tab, 4, None))) <- get(Table.new(self.flatbuffer@*, self.flatbuffer_loc), 12, None) is Some & stat is Min
Scalar(dtype(self), TryFrom.try_from(get(get(Table.new(self.flatbuffer@*, self.flatbuffer_loc), 12, None)._tab, 6, None))) <- get(Table.new(self.flatbuffer@*, self.flatbuffer_loc), 12, None) is Some & stat is Max
@ <vortex::data::ArrayData as vortex::stats::Statistics>::to_set args=self,stat,value
read(self.stats_map)
@ <vortex::view::ArrayView as vortex::stats::Statistics>::to_set args=self,stat,value
StatsSet(HashMap.new())
or(with(loop{StatsSet(HashMap.new()) | loop}.values=loop{StatsSet(HashMap.new()) | loop}.values.insert(elem(all()), get(self, elem(all())))), loop{StatsSet(HashMap.new()) | with(loop.values=loop.values.insert(elem(all()), get(self, elem(all())))) <- get(self, elem(all())) is Some})
@ <vortex::data::ArrayData as vortex::stats::Statistics>::compute args=self,stat,value voc=compute_statistics,read,write
None <- compute_statistics(Data(self), stat) is Err & get(self, stat) is None
get(self, stat) <- compute_statistics(Data(self), stat) is Ok
get(self, stat) <- get(self, stat) is Some
@ <vortex::view::ArrayView as vortex::stats::Statistics>::compute args=self,stat,value
None <- compute_statistics(View(self), stat) is Err & get(self, stat) is None
get(compute_statistics(View(self), stat), stat) <- compute_statistics(View(self), stat) is Ok & get(self, stat) is None
get(self, stat) <- get(self, stat) is Some
'''
WIDTH = r'''
@ <f32 as vortex::array::primitive::stats::BitWidth>::bit_width args=self
32
@ <f32 as vortex::array::primitive::stats::BitWidth>::trailing_zeros args=self
0
@ <f64 as vortex::array::primitive::stats::BitWidth>::bit_width args=self
64
@ <f64 as vortex::array::primitive::stats::BitWidth>::trailing_zeros args=self
0
@ <half::binary16::f16 as vortex::array::primitive::stats::BitWidth>::bit_width args=self
16
@ <half::binary16::f16 as vortex::array::primitive::stats::BitWidth>::trailing_zeros args=self
0
@ <i16 as vortex::array::primitive::stats::BitWidth>::bit_width args=self
[-leading_zeros(self) + 16]
@ <i16 as vortex::array::primitive::stats::BitWidth>::trailing_zeros args=self
trailing_zeros(self)
@ <i32 as vortex::array::primitive::stats::BitWidth>::bit_width args=self
[-leading_zeros(self) + 32]
@ <i32 as vortex::array::primitive::stats::BitWidth>::trailing_zeros args=self
trailing_zeros(self)
@ <i64 as vortex::array::primitive::stats::BitWidth>::bit_width args=self
[-leading_zeros(self) + 64]
@ <i64 as vortex::array::primitive::stats::BitWidth>::trailing_zeros args=self
trailing_zeros(self)
@ <i8 as vortex::array::primitive::stats::BitWidth>::bit_width args=self
[-leading_zeros(self) + 8]
@ <i8 as vortex::array::primitive::stats::BitWidth>::trailing_zeros args=self
trailing_zeros(self)
@ <u16 as vortex::array::primitive::stats::BitWidth>::bit_width args=self
[-leading_zeros(self) + 16]
@ <u16 as vortex::array::primitive::stats::BitWidth>::trailing_zeros args=self
trailing_zeros(self)
@ <u32 as vortex::array::primitive::stats::BitWidth>::bit_width args=self
[-leading_zeros(self) + 32]
@ <u32 as vortex::array::primitive::stats::BitWidth>::trailing_zeros args=self
trailing_zeros(self)
@ <u64 as vortex::array::primitive::stats::BitWidth>::bit_width args=self
[-leading_zeros(self) + 64]
@ <u64 as vortex::array::primitive::stats::BitWidth>::trailing_zeros args=self
trailing_zeros(self)
@ <u8 as vortex::array::primitive::stats::BitWidth>::bit_width args=self
[-leading_zeros(self) + 8]
@ <u8 as vortex::array::primitive::stats::BitWidth>::trailing_zeros args=self
trailing_zeros(self)
'''
REC = r'''
@ vortex::array::varbin::stats::compute_stats args=iter,dtype voc=nullable_next,n_nulls calls=n_nulls#1 n=1
n_nulls(sum(each(1)))
@ <vortex::array::constant::ConstantArray>::new args=scalar,length voc=try_from_parts
ConstantArray.try_from_parts(dtype(scalar), length, ConstantMetadata(scalar.value), [], StatsSet([(Max, scalar), (Min, scalar), (IsConstant, Scalar(Bool(NonNullable), Bool(True))), (IsSorted, Scalar(Bool(NonNullable), Bool(True))), (RunCount, Scalar(dtype(), 1))]))
@ <vortex::Array as core::convert::From<arrow_buffer::buffer::offset::OffsetBuffer<O>>>::from args=value calls=set#1,2 under=all each=1 n=1
set(IsSorted, Scalar(Bool(NonNullable), Bool(True)))
@ <vortex_roaring::boolean::RoaringBoolArray>::try_new args=bitmap,length calls=try_from_parts#5 voc=try_from_parts,statistics n=1
try_from_parts(StatsSet([(Min, Scalar(Bool(NonNullable), Bool(Eq(length, statistics(bitmap).cardinality)))), (Max, Scalar(Bool(NonNullable), Bool(!Eq(0, statistics(bitmap).cardinality)))), (IsConstant, Scalar(Bool(NonNullable), Bool(!and(!Eq(0, statistics(bitmap).cardinality), !Eq(length, statistics(bitmap).cardinality))))), (TrueCount, Scalar(dtype(), statistics(bitmap).cardinality))]))
@ vortex_runend::compress::runend_encode args=array calls=set#1,2 under=all each=1 ptype=I32 voc=runend_encode_primitive n=8
set(IsConstant, Scalar(Bool(NonNullable), Bool(Eq(1, len(PrimitiveArray.from_vec(runend_encode_primitive(maybe_null_slice(array)).0, NonNullable))))))
set(IsConstant, Scalar(Bool(NonNullable), Bool(Eq(1, len(PrimitiveArray.from_vec(runend_encode_primitive(maybe_null_slice(array)).1, {AllValid <- nullability(dtype(array)) is Nullable | nullability(dtype(array)) <- nullability(dtype(array)) is NonNullable}))))))
set(IsSorted, Scalar(Bool(NonNullable), Bool(True)))
set(IsStrictSorted, Scalar(Bool(NonNullable), Bool(True)))
set(Max, Scalar(dtype(), len(array))) <- !Eq(0, len(PrimitiveArray.from_vec(runend_encode_primitive(maybe_null_slice(array)).0, NonNullable)))
set(Min, scalar_at(PrimitiveArray.from_vec(runend_encode_primitive(maybe_null_slice(array)).0, NonNullable), 0)) <- !Eq(0, len(PrimitiveArray.from_vec(runend_encode_primitive(maybe_null_slice(array)).0, NonNullable)))
set(RunCount, Scalar(dtype(), len(PrimitiveArray.from_vec(runend_encode_primitive(maybe_null_slice(array)).1, {AllValid <- nullability(dtype(array)) is Nullable | nullability(dtype(array)) <- nullability(dtype(array)) is NonNullable}))))
set(elem([Min, Max, IsSorted, IsStrictSorted]), get(array@*, elem([Min, Max, IsSorted, IsStrictSorted]))) <- get(array@*, elem([Min, Max, IsSorted, IsStrictSorted])) is Some & validity(array) is AllValid|NonNullable
@ vortex::stats::trailing_zeros args=array
as_u8(or(find_or_first(enumerate(or(compute_trailing_zero_freq(array@*), [0])), fn(!Eq($0.1, 0))).0, 0))
'''
def run(c):
    spec.run_tables(c, (('accumulate', ACCUM), ('compute', COMP), ('merge', MERGE), ('access', ACCESS), ('width', WIDTH), ('recorded', REC),), 'must keep the statistic what its name says of the rows', r'(ArrayStatisticsCompute>::compute_statistics)$', ('compute', 14))
    # merging reads the receiver's Min and Max while it decides constancy and sortedness: these have to be merged before the extremes are
    a = c.F.adts.get('vortex::stats::Stat')
    if a and any(re.search(r'enum_iterator::(all|Sequence)', str(x)) for p in c.F.bodies if re.search(r'StatsSet>::merge$', p) for x in (c.F.bodies[p]['b'],)):
        o = [v[0] for v in sorted(a['v'], key=lambda v: int(v[1]))]
        for x in ('IsConstant', 'IsSorted', 'IsStrictSorted'):
            for y in ('Min', 'Max'):
                c.req(x in o and y in o and o.index(x) < o.index(y), 'order', 'Stat:%s<%s' % (x, y), 'Stat: %s is merged in the order of the variants and reads %s, so it has to come before %s' % (x, y, y), 'vortex-array/src/stats/mod.rs')
    # the statistics written with an array: every slot of the message holds the statistic it is named after (the reader's side is part of 'access')
    p = next((p for p in c.F.bodies if re.search(r'dyn vortex::stats::Statistics as vortex_flatbuffers::WriteFlatBuffer>::write_flatbuffer$', p)), None)
    if p is None: c.body('<&dyn vortex::stats::Statistics as vortex_flatbuffers::WriteFlatBuffer>::write_flatbuffer'); return
    r = c.run(p, {1: mk('arg', 1, 'self'), 2: mk('arg', 2, 'fbb')}, maxdepth=6, opaque=['Statistics>::get', 'Statistics::get', 'WriteFlatBuffer>::write_flatbuffer', 'create_vector', 'ArrayStats>::create'])
    if r is None: return
    for e in r.events:
        if not e.name.endswith('ArrayStats>::create') or len(e.vals) < 2 or e.vals[1].op != 'agg': continue
        names = [f[0] for f in c.F.adts[e.vals[1].a[0]]['v'][0][2]]
        for n, v in zip(names, e.vals[1].a[2]):
            seen, st, done = set(), [v], set()
            while st:
                x = st.pop()
                if isinstance(x, tuple): st.extend(x); continue
                if not isinstance(x, T) or x in done or x.op in ('upd', 'mref') or x.op == 'arg' and x.a[0] == 2: continue
                done.add(x)
                q = variant_name(x) if x.op in ('agg', 'k') else None
                if x.op == 'agg' and x.a[0].endswith('::Stat') or x.op == 'k' and q in (c.F.variants('vortex::stats::Stat') or ()): seen.add(q); continue
                if x.op == 'phi': st.extend(a for a, _, _ in r.e.alts_.get(x, ())); continue
                st.extend(x.a)
            want = ''.join(w.capitalize() for w in n.split('_'))
            if seen: c.req(seen == {want}, 'written', 'ArrayStats.%s' % n, 'the slot %s of the written statistics holds %s' % (n, ', '.join(sorted(seen))), c.where(e.fn, e.line), sample='%s <- %s' % (n, sorted(seen)))
    c.floor('written', 8)
