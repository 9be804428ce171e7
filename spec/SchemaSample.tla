---------------------------- MODULE SchemaSample ----------------------------
(* Wire tables of the SAMPLE protocol: for every message class the ordered list of its
   wire fields.  See WireKinds.tla for the field constructors. *)
EXTENDS WireKinds

SamplePackage == "com.finproto.sample.messages"

sample_BasicPacket ==
  << N("fieldI8", 1, BE),
     N("fieldI16", 2, LE),
     N("fieldI32", 4, LE),
     N("fieldI64", 8, LE),
     SP("fieldChar", 1, 48, TRUE),
     N("fieldU8", 1, BE),
     N("fieldU16", 2, LE),
     N("fieldU32", 4, LE),
     N("fieldU64", 8, LE),
     F("fieldF32", 4, LE),
     F("fieldF64", 8, LE),
     L("fieldI8List", 2, LE, N("", 1, BE)),
     L("fieldI16List", 2, LE, N("", 2, LE)),
     L("fieldI32List", 2, LE, N("", 4, LE)),
     L("fieldI64List", 2, LE, N("", 8, LE)),
     L("fieldCharList", 2, LE, SP("", 1, 48, TRUE)),
     L("fieldU8List", 2, LE, N("", 1, BE)),
     L("fieldU16List", 2, LE, N("", 2, LE)),
     L("fieldU32List", 2, LE, N("", 4, LE)),
     L("fieldU64List", 2, LE, N("", 8, LE)),
     L("fieldF32List", 2, LE, F("", 4, LE)),
     L("fieldF64List", 2, LE, F("", 8, LE)) >>

sample_EmptyPacket ==
  <<  >>

sample_NestedPacket ==
  << O("subPacket", "sample_SubPacket"),
     L("subPacketList", 2, LE, O("", "sample_SubPacket")),
     O("inerPacket", "sample_NestedPacket_InerPacket") >>

sample_NestedPacket_InerPacket ==
  << N("fieldU32", 4, LE),
     L("fieldI16List", 2, LE, N("", 2, LE)) >>

sample_RootPacket ==
  << N("msgType", 2, LE),
     BLEN("payloadLen", 4, LE),
     D("payload", "msgType"),
     CHK("checksum", 4, LE, "CRC32") >>

sample_StringPacket ==
  << V("fieldDynamicString", 2, LE),
     V("fieldDynamicString1", 2, LE),
     SP("fieldFixedString1", 1, 48, TRUE),
     SP("fieldFixedString10", 10, 48, TRUE),
     SP("fieldFixedString10Pad", 10, 32, TRUE),
     SP("fieldFixedString10PadWithNullTerminator", 10, 0, FALSE),
     L("fieldDynamicStringList", 2, LE, V("", 2, LE)),
     L("fieldDynamicString1List", 2, LE, V("", 2, LE)),
     L("fieldFixedString1List", 2, LE, SP("", 1, 48, TRUE)),
     L("fieldFixedString10List", 2, LE, SP("", 10, 48, TRUE)),
     L("fieldFixedString10ListPad", 2, LE, SP("", 10, 48, FALSE)),
     L("fieldFixedString10PadWithNullTerminatorList", 2, LE, SP("", 10, 0, FALSE)) >>

sample_SubPacket ==
  << N("fieldU32", 4, LE),
     L("fieldI16List", 2, LE, N("", 2, LE)) >>

SampleMessages ==
  [ sample_BasicPacket |-> sample_BasicPacket,
    sample_EmptyPacket |-> sample_EmptyPacket,
    sample_NestedPacket |-> sample_NestedPacket,
    sample_NestedPacket_InerPacket |-> sample_NestedPacket_InerPacket,
    sample_RootPacket |-> sample_RootPacket,
    sample_StringPacket |-> sample_StringPacket,
    sample_SubPacket |-> sample_SubPacket ]

(* RootPacket: selector -> class of its dynamic part *)
sample_RootPacket_Types ==
  << <<1, "sample_BasicPacket">>,
     <<2, "sample_StringPacket">>,
     <<3, "sample_NestedPacket">>,
     <<4, "sample_EmptyPacket">> >>

=============================================================================
