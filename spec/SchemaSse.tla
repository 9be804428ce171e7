---------------------------- MODULE SchemaSse ----------------------------
(* Wire tables of the SSE protocol: for every message class the ordered list of its
   wire fields.  See WireKinds.tla for the field constructors. *)
EXTENDS WireKinds

SsePackage == "com.finproto.sse.bin.messages"

sse_CancelReject ==
  << S("pbu", 8),
     N("setId", 4, BE),
     N("reportIndex", 8, BE),
     N("bizId", 4, BE),
     S("bizPbu", 8),
     S("clOrdId", 10),
     S("securityId", 12),
     S("origClOrdId", 10),
     S("branchId", 8),
     N("cxlRejReason", 4, BE),
     N("tradeDate", 4, BE),
     N("transactTime", 8, BE),
     S("userInfo", 32) >>

sse_Confirm ==
  << S("pbu", 8),
     N("setId", 4, BE),
     N("reportIndex", 8, BE),
     N("bizId", 4, BE),
     S("execType", 1),
     S("bizPbu", 8),
     S("clOrdId", 10),
     S("securityId", 12),
     S("account", 13),
     N("ownerType", 1, BE),
     S("side", 1),
     N("price", 8, BE),
     N("orderQty", 8, BE),
     N("leavesQty", 8, BE),
     N("cxlQty", 8, BE),
     S("ordType", 1),
     S("timeInForce", 1),
     S("ordStatus", 1),
     S("creditTag", 2),
     S("origClOrdId", 10),
     S("clearingFirm", 8),
     S("branchId", 8),
     N("ordRejReason", 4, BE),
     S("ordCnfmId", 16),
     S("origOrdCnfmId", 16),
     N("tradeDate", 4, BE),
     N("transactTime", 8, BE),
     S("userInfo", 32) >>

sse_ExecRptEndOfStream ==
  << S("pbu", 8),
     N("setId", 4, BE),
     N("endReportIndex", 8, BE) >>

sse_ExecRptInfo ==
  << N("platformId", 2, BE),
     L("pbu", 2, BE, S("", 8)),
     L("setId", 2, BE, N("", 4, BE)) >>

sse_ExecRptSync ==
  << L("subExecRptSync", 2, BE, O("", "sse_ExecRptSync_SubExecRptSync")) >>

sse_ExecRptSync_SubExecRptSync ==
  << S("pbu", 8),
     N("setId", 4, BE),
     N("beginReportIndex", 8, BE) >>

sse_ExecRptSyncRsp ==
  << L("subExecRptSyncRsp", 2, BE, O("", "sse_ExecRptSyncRsp_SubExecRptSyncRsp")) >>

sse_ExecRptSyncRsp_SubExecRptSyncRsp ==
  << S("pbu", 8),
     N("setId", 4, BE),
     N("beginReportIndex", 8, BE),
     N("endReportIndex", 8, BE),
     N("rejReason", 4, BE),
     S("text", 64) >>

sse_Heartbeat ==
  <<  >>

sse_Logon ==
  << S("senderCompId", 32),
     S("targetCompId", 32),
     N("heartBtInt", 2, BE),
     S("prtclVersion", 8),
     N("tradeDate", 4, BE),
     N("qsize", 4, BE) >>

sse_Logout ==
  << N("sessionStatus", 4, BE),
     S("text", 64) >>

sse_NewOrderSingle ==
  << N("bizId", 4, BE),
     S("bizPbu", 8),
     S("clOrdId", 10),
     S("securityId", 12),
     S("account", 13),
     N("ownerType", 1, BE),
     S("side", 1),
     N("price", 8, BE),
     N("orderQty", 8, BE),
     S("ordType", 1),
     S("timeInForce", 1),
     N("transactTime", 8, BE),
     S("creditTag", 2),
     S("clearingFirm", 8),
     S("branchId", 8),
     S("userInfo", 32) >>

sse_OrderCancel ==
  << N("bizId", 4, BE),
     S("bizPbu", 8),
     S("clOrdId", 10),
     S("securityId", 12),
     S("account", 13),
     N("ownerType", 1, BE),
     S("side", 1),
     S("origClOrdId", 10),
     N("transactTime", 8, BE),
     S("branchId", 8),
     S("userInfo", 32) >>

sse_OrderReject ==
  << N("bizId", 4, BE),
     S("bizPbu", 8),
     S("clOrdId", 10),
     S("securityId", 12),
     N("ordRejReason", 4, BE),
     N("tradeDate", 4, BE),
     N("transactTime", 8, BE),
     S("userInfo", 32) >>

sse_PlatformState ==
  << N("platformId", 2, BE),
     N("platformState", 2, BE) >>

sse_Report ==
  << S("pbu", 8),
     N("setId", 4, BE),
     N("reportIndex", 8, BE),
     N("bizId", 4, BE),
     S("execType", 1),
     S("bizPbu", 8),
     S("clOrdId", 10),
     S("securityId", 12),
     S("account", 13),
     N("ownerType", 1, BE),
     N("orderEntryTime", 8, BE),
     N("lastPx", 8, BE),
     N("lastQty", 8, BE),
     N("grossTradeAmt", 8, BE),
     S("side", 1),
     N("orderQty", 8, BE),
     N("leavesQty", 8, BE),
     S("ordStatus", 1),
     S("creditTag", 2),
     S("clearingFirm", 8),
     S("branchId", 8),
     S("trdCnfmId", 16),
     S("ordCnfmId", 16),
     N("tradeDate", 4, BE),
     N("transactTime", 8, BE),
     S("userInfo", 32) >>

sse_SseBinary ==
  << N("msgType", 4, BE),
     N("msgSeqNum", 8, BE),
     BLEN("msgBodyLen", 4, BE),
     D("body", "msgType"),
     CHK("checksum", 4, BE, "SSE_BIN") >>

SseMessages ==
  [ sse_CancelReject |-> sse_CancelReject,
    sse_Confirm |-> sse_Confirm,
    sse_ExecRptEndOfStream |-> sse_ExecRptEndOfStream,
    sse_ExecRptInfo |-> sse_ExecRptInfo,
    sse_ExecRptSync |-> sse_ExecRptSync,
    sse_ExecRptSync_SubExecRptSync |-> sse_ExecRptSync_SubExecRptSync,
    sse_ExecRptSyncRsp |-> sse_ExecRptSyncRsp,
    sse_ExecRptSyncRsp_SubExecRptSyncRsp |-> sse_ExecRptSyncRsp_SubExecRptSyncRsp,
    sse_Heartbeat |-> sse_Heartbeat,
    sse_Logon |-> sse_Logon,
    sse_Logout |-> sse_Logout,
    sse_NewOrderSingle |-> sse_NewOrderSingle,
    sse_OrderCancel |-> sse_OrderCancel,
    sse_OrderReject |-> sse_OrderReject,
    sse_PlatformState |-> sse_PlatformState,
    sse_Report |-> sse_Report,
    sse_SseBinary |-> sse_SseBinary ]

(* SseBinary: selector -> class of its dynamic part *)
sse_SseBinary_Types ==
  << <<33, "sse_Heartbeat">>,
     <<40, "sse_Logon">>,
     <<41, "sse_Logout">>,
     <<58, "sse_NewOrderSingle">>,
     <<61, "sse_OrderCancel">>,
     <<32, "sse_Confirm">>,
     <<59, "sse_CancelReject">>,
     <<103, "sse_Report">>,
     <<204, "sse_OrderReject">>,
     <<209, "sse_PlatformState">>,
     <<208, "sse_ExecRptInfo">>,
     <<206, "sse_ExecRptSync">>,
     <<207, "sse_ExecRptSyncRsp">>,
     <<210, "sse_ExecRptEndOfStream">> >>

=============================================================================
