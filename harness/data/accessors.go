package main

import (
	"github.com/sttp/goapi/sttp/data"
)

// accessor reads a field as one type.
type accessor struct {
	t      data.DataTypeEnum
	index  func(*data.DataRow, int) (interface{}, bool, error)
	byName func(*data.DataRow, string) (interface{}, bool, error)
}

func boxed[T any](v T, null bool, err error) (interface{}, bool, error) { return v, null, err }

var accessors = []accessor{
	{data.DataType.String,
		func(r *data.DataRow, i int) (interface{}, bool, error) { return boxed(r.StringValue(i)) },
		func(r *data.DataRow, n string) (interface{}, bool, error) { return boxed(r.StringValueByName(n)) }},
	{data.DataType.Boolean,
		func(r *data.DataRow, i int) (interface{}, bool, error) { return boxed(r.BooleanValue(i)) },
		func(r *data.DataRow, n string) (interface{}, bool, error) { return boxed(r.BooleanValueByName(n)) }},
	{data.DataType.DateTime,
		func(r *data.DataRow, i int) (interface{}, bool, error) { return boxed(r.DateTimeValue(i)) },
		func(r *data.DataRow, n string) (interface{}, bool, error) { return boxed(r.DateTimeValueByName(n)) }},
	{data.DataType.Single,
		func(r *data.DataRow, i int) (interface{}, bool, error) { return boxed(r.SingleValue(i)) },
		func(r *data.DataRow, n string) (interface{}, bool, error) { return boxed(r.SingleValueByName(n)) }},
	{data.DataType.Double,
		func(r *data.DataRow, i int) (interface{}, bool, error) { return boxed(r.DoubleValue(i)) },
		func(r *data.DataRow, n string) (interface{}, bool, error) { return boxed(r.DoubleValueByName(n)) }},
	{data.DataType.Decimal,
		func(r *data.DataRow, i int) (interface{}, bool, error) { return boxed(r.DecimalValue(i)) },
		func(r *data.DataRow, n string) (interface{}, bool, error) { return boxed(r.DecimalValueByName(n)) }},
	{data.DataType.Guid,
		func(r *data.DataRow, i int) (interface{}, bool, error) { return boxed(r.GuidValue(i)) },
		func(r *data.DataRow, n string) (interface{}, bool, error) { return boxed(r.GuidValueByName(n)) }},
	{data.DataType.Int8,
		func(r *data.DataRow, i int) (interface{}, bool, error) { return boxed(r.Int8Value(i)) },
		func(r *data.DataRow, n string) (interface{}, bool, error) { return boxed(r.Int8ValueByName(n)) }},
	{data.DataType.Int16,
		func(r *data.DataRow, i int) (interface{}, bool, error) { return boxed(r.Int16Value(i)) },
		func(r *data.DataRow, n string) (interface{}, bool, error) { return boxed(r.Int16ValueByName(n)) }},
	{data.DataType.Int32,
		func(r *data.DataRow, i int) (interface{}, bool, error) { return boxed(r.Int32Value(i)) },
		func(r *data.DataRow, n string) (interface{}, bool, error) { return boxed(r.Int32ValueByName(n)) }},
	{data.DataType.Int64,
		func(r *data.DataRow, i int) (interface{}, bool, error) { return boxed(r.Int64Value(i)) },
		func(r *data.DataRow, n string) (interface{}, bool, error) { return boxed(r.Int64ValueByName(n)) }},
	{data.DataType.UInt8,
		func(r *data.DataRow, i int) (interface{}, bool, error) { return boxed(r.UInt8Value(i)) },
		func(r *data.DataRow, n string) (interface{}, bool, error) { return boxed(r.UInt8ValueByName(n)) }},
	{data.DataType.UInt16,
		func(r *data.DataRow, i int) (interface{}, bool, error) { return boxed(r.UInt16Value(i)) },
		func(r *data.DataRow, n string) (interface{}, bool, error) { return boxed(r.UInt16ValueByName(n)) }},
	{data.DataType.UInt32,
		func(r *data.DataRow, i int) (interface{}, bool, error) { return boxed(r.UInt32Value(i)) },
		func(r *data.DataRow, n string) (interface{}, bool, error) { return boxed(r.UInt32ValueByName(n)) }},
	{data.DataType.UInt64,
		func(r *data.DataRow, i int) (interface{}, bool, error) { return boxed(r.UInt64Value(i)) },
		func(r *data.DataRow, n string) (interface{}, bool, error) { return boxed(r.UInt64ValueByName(n)) }},
}
