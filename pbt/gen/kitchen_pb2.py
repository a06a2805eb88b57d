# -*- coding: utf-8 -*-
# Generated by the protocol buffer compiler.  DO NOT EDIT!
# NO CHECKED-IN PROTOBUF GENCODE
# source: kitchen.proto
# Protobuf Python Version: 6.33.5
"""Generated protocol buffer code."""
from google.protobuf import descriptor as _descriptor
from google.protobuf import descriptor_pool as _descriptor_pool
from google.protobuf import runtime_version as _runtime_version
from google.protobuf import symbol_database as _symbol_database
from google.protobuf.internal import builder as _builder
_runtime_version.ValidateProtobufRuntimeVersion(
    _runtime_version.Domain.PUBLIC,
    6,
    33,
    5,
    '',
    'kitchen.proto'
)
# @@protoc_insertion_point(imports)

_sym_db = _symbol_database.Default()


from google.protobuf import any_pb2 as google_dot_protobuf_dot_any__pb2
from google.protobuf import duration_pb2 as google_dot_protobuf_dot_duration__pb2
from google.protobuf import empty_pb2 as google_dot_protobuf_dot_empty__pb2
from google.protobuf import field_mask_pb2 as google_dot_protobuf_dot_field__mask__pb2
from google.protobuf import struct_pb2 as google_dot_protobuf_dot_struct__pb2
from google.protobuf import timestamp_pb2 as google_dot_protobuf_dot_timestamp__pb2
from google.protobuf import wrappers_pb2 as google_dot_protobuf_dot_wrappers__pb2


DESCRIPTOR = _descriptor_pool.Default().AddSerializedFile(b'\n\rkitchen.proto\x12\nvt.kitchen\x1a\x19google/protobuf/any.proto\x1a\x1egoogle/protobuf/duration.proto\x1a\x1bgoogle/protobuf/empty.proto\x1a google/protobuf/field_mask.proto\x1a\x1cgoogle/protobuf/struct.proto\x1a\x1fgoogle/protobuf/timestamp.proto\x1a\x1egoogle/protobuf/wrappers.proto\"\xb5\x16\n\x04Sink\x12\x10\n\x08\x66_double\x18\x01 \x01(\x01\x12\x0f\n\x07\x66_float\x18\x02 \x01(\x02\x12\x0f\n\x07\x66_int32\x18\x03 \x01(\x05\x12\x0f\n\x07\x66_int64\x18\x04 \x01(\x03\x12\x10\n\x08\x66_uint32\x18\x05 \x01(\r\x12\x10\n\x08\x66_uint64\x18\x06 \x01(\x04\x12\x10\n\x08\x66_sint32\x18\x07 \x01(\x11\x12\x10\n\x08\x66_sint64\x18\x08 \x01(\x12\x12\x11\n\tf_fixed32\x18\t \x01(\x07\x12\x11\n\tf_fixed64\x18\n \x01(\x06\x12\x12\n\nf_sfixed32\x18\x0b \x01(\x0f\x12\x12\n\nf_sfixed64\x18\x0c \x01(\x10\x12\x0e\n\x06\x66_bool\x18\r \x01(\x08\x12\x10\n\x08\x66_string\x18\x0e \x01(\t\x12\x0f\n\x07\x66_bytes\x18\x0f \x01(\x0c\x12\"\n\x07\x66_shade\x18\x10 \x01(\x0e\x32\x11.vt.kitchen.Shade\x12%\n\x06\x66_deep\x18\x11 \x01(\x0b\x32\x15.vt.kitchen.Sink.Deep\x12\x15\n\x08o_double\x18\x15 \x01(\x01H\x01\x88\x01\x01\x12\x14\n\x07o_float\x18\x16 \x01(\x02H\x02\x88\x01\x01\x12\x14\n\x07o_int32\x18\x17 \x01(\x05H\x03\x88\x01\x01\x12\x15\n\x08o_uint64\x18\x18 \x01(\x04H\x04\x88\x01\x01\x12\x13\n\x06o_bool\x18\x19 \x01(\x08H\x05\x88\x01\x01\x12\x15\n\x08o_string\x18\x1a \x01(\tH\x06\x88\x01\x01\x12\x14\n\x07o_bytes\x18\x1b \x01(\x0cH\x07\x88\x01\x01\x12\'\n\x07o_shade\x18\x1c \x01(\x0e\x32\x11.vt.kitchen.ShadeH\x08\x88\x01\x01\x12\x10\n\x08r_double\x18\x1f \x03(\x01\x12\x0f\n\x07r_float\x18  \x03(\x02\x12\x10\n\x08r_sint64\x18! \x03(\x12\x12\x11\n\tr_fixed32\x18\" \x03(\x07\x12\x0e\n\x06r_bool\x18# \x03(\x08\x12\x10\n\x08r_string\x18$ \x03(\t\x12\x0f\n\x07r_bytes\x18% \x03(\x0c\x12\"\n\x07r_shade\x18& \x03(\x0e\x32\x11.vt.kitchen.Shade\x12%\n\x06r_deep\x18\' \x03(\x0b\x32\x15.vt.kitchen.Sink.Deep\x12\x16\n\nr_unpacked\x18( \x03(\x05\x42\x02\x10\x00\x12/\n\x08m_string\x18) \x03(\x0b\x32\x1d.vt.kitchen.Sink.MStringEntry\x12-\n\x07m_int32\x18* \x03(\x0b\x32\x1c.vt.kitchen.Sink.MInt32Entry\x12/\n\x08m_uint64\x18+ \x03(\x0b\x32\x1d.vt.kitchen.Sink.MUint64Entry\x12/\n\x08m_sint64\x18, \x03(\x0b\x32\x1d.vt.kitchen.Sink.MSint64Entry\x12+\n\x06m_bool\x18- \x03(\x0b\x32\x1b.vt.kitchen.Sink.MBoolEntry\x12\x31\n\tm_fixed32\x18. \x03(\x0b\x32\x1e.vt.kitchen.Sink.MFixed32Entry\x12\x12\n\x08p_string\x18\x33 \x01(\tH\x00\x12\x11\n\x07p_bytes\x18\x34 \x01(\x0cH\x00\x12\x12\n\x08p_sint32\x18\x35 \x01(\x11H\x00\x12\x10\n\x06p_bool\x18\x36 \x01(\x08H\x00\x12\x12\n\x08p_double\x18\x37 \x01(\x01H\x00\x12$\n\x07p_shade\x18\x38 \x01(\x0e\x32\x11.vt.kitchen.ShadeH\x00\x12\'\n\x06p_deep\x18\x39 \x01(\x0b\x32\x15.vt.kitchen.Sink.DeepH\x00\x12,\n\x06p_null\x18: \x01(\x0e\x32\x1a.google.protobuf.NullValueH\x00\x12)\n\x07p_empty\x18; \x01(\x0b\x32\x16.google.protobuf.EmptyH\x00\x12/\n\x0bw_timestamp\x18= \x01(\x0b\x32\x1a.google.protobuf.Timestamp\x12-\n\nw_duration\x18> \x01(\x0b\x32\x19.google.protobuf.Duration\x12)\n\x08w_struct\x18? \x01(\x0b\x32\x17.google.protobuf.Struct\x12\'\n\x07w_value\x18@ \x01(\x0b\x32\x16.google.protobuf.Value\x12*\n\x06w_list\x18\x41 \x01(\x0b\x32\x1a.google.protobuf.ListValue\x12*\n\x06w_mask\x18\x42 \x01(\x0b\x32\x1a.google.protobuf.FieldMask\x12#\n\x05w_any\x18\x43 \x01(\x0b\x32\x14.google.protobuf.Any\x12\'\n\x07w_empty\x18\x44 \x01(\x0b\x32\x16.google.protobuf.Empty\x12.\n\x08w_double\x18\x45 \x01(\x0b\x32\x1c.google.protobuf.DoubleValue\x12,\n\x07w_int64\x18\x46 \x01(\x0b\x32\x1b.google.protobuf.Int64Value\x12.\n\x08w_uint32\x18G \x01(\x0b\x32\x1c.google.protobuf.UInt32Value\x12*\n\x06w_bool\x18H \x01(\x0b\x32\x1a.google.protobuf.BoolValue\x12.\n\x08w_string\x18I \x01(\x0b\x32\x1c.google.protobuf.StringValue\x12,\n\x07w_bytes\x18J \x01(\x0b\x32\x1b.google.protobuf.BytesValue\x12-\n\nr_duration\x18K \x03(\x0b\x32\x19.google.protobuf.Duration\x12#\n\x05r_any\x18L \x03(\x0b\x32\x14.google.protobuf.Any\x12\'\n\x07r_value\x18M \x03(\x0b\x32\x16.google.protobuf.Value\x12\x1e\n\rrenamed_field\x18Q \x01(\tR\x07RENAMED\x12\x16\n\x0eunder__score_3\x18R \x01(\t\x1a\xe8\x01\n\x04\x44\x65\x65p\x12\x0c\n\x04name\x18\x01 \x01(\t\x12%\n\x05inner\x18\x02 \x01(\x0e\x32\x16.vt.kitchen.Sink.Inner\x12\x35\n\x08\x63hildren\x18\x03 \x03(\x0b\x32#.vt.kitchen.Sink.Deep.ChildrenEntry\x12#\n\x04sink\x18\x04 \x01(\x0b\x32\x10.vt.kitchen.SinkH\x00\x88\x01\x01\x1a\x46\n\rChildrenEntry\x12\x0b\n\x03key\x18\x01 \x01(\t\x12$\n\x05value\x18\x02 \x01(\x0b\x32\x15.vt.kitchen.Sink.Deep:\x02\x38\x01\x42\x07\n\x05_sink\x1a.\n\x0cMStringEntry\x12\x0b\n\x03key\x18\x01 \x01(\t\x12\r\n\x05value\x18\x02 \x01(\t:\x02\x38\x01\x1a-\n\x0bMInt32Entry\x12\x0b\n\x03key\x18\x01 \x01(\x05\x12\r\n\x05value\x18\x02 \x01(\x01:\x02\x38\x01\x1a.\n\x0cMUint64Entry\x12\x0b\n\x03key\x18\x01 \x01(\x04\x12\r\n\x05value\x18\x02 \x01(\x0c:\x02\x38\x01\x1a\x41\n\x0cMSint64Entry\x12\x0b\n\x03key\x18\x01 \x01(\x12\x12 \n\x05value\x18\x02 \x01(\x0e\x32\x11.vt.kitchen.Shade:\x02\x38\x01\x1a\x43\n\nMBoolEntry\x12\x0b\n\x03key\x18\x01 \x01(\x08\x12$\n\x05value\x18\x02 \x01(\x0b\x32\x15.vt.kitchen.Sink.Deep:\x02\x38\x01\x1aK\n\rMFixed32Entry\x12\x0b\n\x03key\x18\x01 \x01(\x07\x12)\n\x05value\x18\x02 \x01(\x0b\x32\x1a.google.protobuf.Timestamp:\x02\x38\x01\"&\n\x05Inner\x12\x0e\n\nINNER_ZERO\x10\x00\x12\r\n\tINNER_TWO\x10\x02\x42\x06\n\x04pickB\x0b\n\t_o_doubleB\n\n\x08_o_floatB\n\n\x08_o_int32B\x0b\n\t_o_uint64B\t\n\x07_o_boolB\x0b\n\t_o_stringB\n\n\x08_o_bytesB\n\n\x08_o_shade*H\n\x05Shade\x12\x15\n\x11SHADE_UNSPECIFIED\x10\x00\x12\x0e\n\nSHADE_DARK\x10\x01\x12\x18\n\x0bSHADE_LIGHT\x10\xfd\xff\xff\xff\xff\xff\xff\xff\xff\x01\x62\x06proto3')

_globals = globals()
_builder.BuildMessageAndEnumDescriptors(DESCRIPTOR, _globals)
_builder.BuildTopDescriptorsAndMessages(DESCRIPTOR, 'kitchen_pb2', _globals)
if not _descriptor._USE_C_DESCRIPTORS:
  DESCRIPTOR._loaded_options = None
  _globals['_SINK_DEEP_CHILDRENENTRY']._loaded_options = None
  _globals['_SINK_DEEP_CHILDRENENTRY']._serialized_options = b'8\001'
  _globals['_SINK_MSTRINGENTRY']._loaded_options = None
  _globals['_SINK_MSTRINGENTRY']._serialized_options = b'8\001'
  _globals['_SINK_MINT32ENTRY']._loaded_options = None
  _globals['_SINK_MINT32ENTRY']._serialized_options = b'8\001'
  _globals['_SINK_MUINT64ENTRY']._loaded_options = None
  _globals['_SINK_MUINT64ENTRY']._serialized_options = b'8\001'
  _globals['_SINK_MSINT64ENTRY']._loaded_options = None
  _globals['_SINK_MSINT64ENTRY']._serialized_options = b'8\001'
  _globals['_SINK_MBOOLENTRY']._loaded_options = None
  _globals['_SINK_MBOOLENTRY']._serialized_options = b'8\001'
  _globals['_SINK_MFIXED32ENTRY']._loaded_options = None
  _globals['_SINK_MFIXED32ENTRY']._serialized_options = b'8\001'
  _globals['_SINK'].fields_by_name['r_unpacked']._loaded_options = None
  _globals['_SINK'].fields_by_name['r_unpacked']._serialized_options = b'\020\000'
  _globals['_SHADE']._serialized_start=3118
  _globals['_SHADE']._serialized_end=3190
  _globals['_SINK']._serialized_start=247
  _globals['_SINK']._serialized_end=3116
  _globals['_SINK_DEEP']._serialized_start=2382
  _globals['_SINK_DEEP']._serialized_end=2614
  _globals['_SINK_DEEP_CHILDRENENTRY']._serialized_start=2535
  _globals['_SINK_DEEP_CHILDRENENTRY']._serialized_end=2605
  _globals['_SINK_MSTRINGENTRY']._serialized_start=2616
  _globals['_SINK_MSTRINGENTRY']._serialized_end=2662
  _globals['_SINK_MINT32ENTRY']._serialized_start=2664
  _globals['_SINK_MINT32ENTRY']._serialized_end=2709
  _globals['_SINK_MUINT64ENTRY']._serialized_start=2711
  _globals['_SINK_MUINT64ENTRY']._serialized_end=2757
  _globals['_SINK_MSINT64ENTRY']._serialized_start=2759
  _globals['_SINK_MSINT64ENTRY']._serialized_end=2824
  _globals['_SINK_MBOOLENTRY']._serialized_start=2826
  _globals['_SINK_MBOOLENTRY']._serialized_end=2893
  _globals['_SINK_MFIXED32ENTRY']._serialized_start=2895
  _globals['_SINK_MFIXED32ENTRY']._serialized_end=2970
  _globals['_SINK_INNER']._serialized_start=2972
  _globals['_SINK_INNER']._serialized_end=3010
# @@protoc_insertion_point(module_scope)
