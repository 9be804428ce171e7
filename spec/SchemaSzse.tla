---------------------------- MODULE SchemaSzse ----------------------------
(* Wire tables of the SZSE protocol: for every message class the ordered list of its
   wire fields.  See WireKinds.tla for the field constructors. *)
EXTENDS WireKinds

SzsePackage == "com.finproto.szse.bin.messages"

szse_BusinessReject ==
  << S("applId", 3),
     N("transactTime", 8, BE),
     S("submittingPbuid", 6),
     S("securityId", 8),
     S("securityIdsource", 4),
     N("refSeqNum", 8, BE),
     N("refMsgType", 4, BE),
     S("businessRejectRefId", 10),
     N("businessRejectReason", 2, BE),
     S("businessRejectText", 50) >>

szse_CancelReject ==
  << N("partitionNo", 4, BE),
     N("reportIndex", 8, BE),
     S("applId", 3),
     S("reportingPbuid", 6),
     S("submittingPbuid", 6),
     S("securityId", 8),
     S("securityIdsource", 4),
     N("ownerType", 2, BE),
     S("clearingFirm", 2),
     N("transactTime", 8, BE),
     S("userInfo", 8),
     S("clOrdId", 10),
     S("origClOrdId", 10),
     S("side", 1),
     S("ordStatus", 1),
     N("cxlRejReason", 2, BE),
     S("rejectText", 16),
     S("orderId", 16) >>

szse_ExecutionConfirm ==
  << N("partitionNo", 4, BE),
     N("reportIndex", 8, BE),
     S("applId", 3),
     S("reportingPbuid", 6),
     S("submittingPbuid", 6),
     S("securityId", 8),
     S("securityIdsource", 4),
     N("ownerType", 2, BE),
     S("clearingFirm", 2),
     N("transactTime", 8, BE),
     S("userInfo", 8),
     S("orderId", 16),
     S("clOrdId", 10),
     S("quoteMsgId", 10),
     S("origClOrdId", 10),
     S("execId", 16),
     S("execType", 1),
     S("ordStatus", 1),
     N("ordRejReason", 2, BE),
     N("leavesQty", 8, BE),
     N("cumQty", 8, BE),
     S("side", 1),
     S("ordType", 1),
     N("orderQty", 8, BE),
     N("price", 8, BE),
     S("accountId", 12),
     S("branchId", 4),
     S("orderRestrictions", 4),
     D("applExtend", "applId") >>

szse_ExecutionReport ==
  << N("partitionNo", 4, BE),
     N("reportIndex", 8, BE),
     S("applId", 3),
     S("reportingPbuid", 6),
     S("submittingPbuid", 6),
     S("securityId", 8),
     S("securityIdsource", 4),
     N("ownerType", 2, BE),
     S("clearingFirm", 2),
     N("transactTime", 8, BE),
     S("userInfo", 8),
     S("orderId", 16),
     S("clOrdId", 10),
     S("quoteMsgId", 10),
     S("execId", 16),
     S("execType", 1),
     S("ordStatus", 1),
     N("lastPx", 8, BE),
     N("lastQty", 8, BE),
     N("leavesQty", 8, BE),
     N("cumQty", 8, BE),
     S("side", 1),
     S("accountId", 12),
     S("branchId", 4),
     D("applExtend", "applId") >>

szse_Extend100101 ==
  << N("stopPx", 8, BE),
     N("minQty", 8, BE),
     N("maxPriceLevels", 2, BE),
     S("timeInForce", 1),
     S("cashMargin", 1) >>

szse_Extend100201 ==
  << N("stopPx", 8, BE),
     N("minQty", 8, BE),
     N("maxPriceLevels", 2, BE),
     S("timeInForce", 1) >>

szse_Extend100301 ==
  << N("stopPx", 8, BE),
     N("minQty", 8, BE),
     N("maxPriceLevels", 2, BE),
     S("timeInForce", 1) >>

szse_Extend100501 ==
  << S("confirmId", 8),
     S("cashMargin", 1) >>

szse_Extend100601 ==
  << S("cashMargin", 1) >>

szse_Extend100701 ==
  << N("expirationDays", 2, BE),
     N("expirationType", 1, BE),
     S("shareProperty", 2) >>

szse_Extend101401 ==
  << N("stopPx", 8, BE),
     N("minQty", 8, BE),
     N("maxPriceLevels", 2, BE),
     S("timeInForce", 1),
     S("positionEffect", 1),
     N("coveredOrUncovered", 1, BE),
     S("contractAccountCode", 6),
     S("secondaryOrderId", 16) >>

szse_Extend101501 ==
  << S("shareProperty", 2) >>

szse_Extend101601 ==
  << S("contractAccountCode", 6) >>

szse_Extend101701 ==
  << N("cashOrderQty", 8, BE) >>

szse_Extend101801 ==
  << S("tenderer", 6) >>

szse_Extend102701 ==
  << S("disposalPbu", 6),
     S("disposalAccountId", 12) >>

szse_Extend102801 ==
  << S("lenderPbu", 6),
     S("lenderAccountId", 12) >>

szse_Extend102901 ==
  << S("deductionPbu", 6),
     S("deductionAccountId", 12) >>

szse_Extend103501 ==
  << S("contractAccountCode", 6) >>

szse_Extend103701 ==
  << S("cashMargin", 1) >>

szse_Extend104101 ==
  << N("stopPx", 8, BE),
     N("minQty", 8, BE),
     N("maxPriceLevels", 2, BE),
     S("timeInForce", 1),
     S("cashMargin", 1) >>

szse_Extend104128 ==
  << S("memberId", 6),
     S("investorType", 2),
     S("investorId", 10),
     S("investorName", 120),
     S("traderCode", 8),
     S("secondaryOrderId", 16),
     N("bidTransType", 2, BE),
     N("bidExecInstType", 2, BE),
     N("lowLimitPrice", 8, BE),
     N("highLimitPrice", 8, BE),
     N("minQty", 8, BE),
     N("tradeDate", 4, BE),
     N("settlType", 2, BE),
     N("settlPeriod", 1, BE),
     N("preTradeAnonymity", 1, BE),
     S("cashMargin", 1),
     S("memo", 160) >>

szse_Extend104701 ==
  << S("secondaryOrderId", 16) >>

szse_Extend106301 ==
  << N("stopPx", 8, BE),
     N("minQty", 8, BE),
     N("maxPriceLevels", 2, BE),
     S("timeInForce", 1),
     S("lotType", 1) >>

szse_Extend200102 ==
  << N("stopPx", 8, BE),
     N("minQty", 8, BE),
     N("maxPriceLevels", 2, BE),
     S("timeInForce", 1),
     S("cashMargin", 1) >>

szse_Extend200115 ==
  << S("cashMargin", 1) >>

szse_Extend200202 ==
  << N("stopPx", 8, BE),
     N("minQty", 8, BE),
     N("maxPriceLevels", 2, BE),
     S("timeInForce", 1) >>

szse_Extend200215 ==
  << N("maturityDate", 4, BE) >>

szse_Extend200302 ==
  << N("stopPx", 8, BE),
     N("minQty", 8, BE),
     N("maxPriceLevels", 2, BE),
     S("timeInForce", 1) >>

szse_Extend200315 ==
  << N("maturityDate", 4, BE) >>

szse_Extend200402 ==
  << N("stopPx", 8, BE),
     N("minQty", 8, BE),
     N("maxPriceLevels", 2, BE),
     S("timeInForce", 1),
     S("positionEffect", 1),
     N("coveredOrUncovered", 1, BE),
     S("contractAccountCode", 6),
     S("secondaryOrderId", 16) >>

szse_Extend200415 ==
  << S("positionEffect", 1),
     N("coveredOrUncovered", 1, BE),
     S("contractAccountCode", 6),
     S("secondaryOrderId", 16) >>

szse_Extend200502 ==
  << S("confirmId", 8),
     S("cashMargin", 1) >>

szse_Extend200515 ==
  << S("confirmId", 8),
     S("cashMargin", 1) >>

szse_Extend200602 ==
  << S("cashMargin", 1) >>

szse_Extend200615 ==
  << S("cashMargin", 1) >>

szse_Extend200702 ==
  << N("expirationDays", 2, BE),
     N("expirationType", 1, BE),
     S("shareProperty", 2) >>

szse_Extend200715 ==
  << N("expirationDays", 2, BE),
     N("expirationType", 1, BE),
     N("maturityDate", 4, BE),
     S("shareProperty", 2) >>

szse_Extend201202 ==
  << S("insufficientSecurityId", 8),
     N("noSecurity", 4, BE),
     S("underlyingSecurityId", 8),
     S("underlyingSecurityIdsource", 4),
     N("deliveryQty", 8, BE),
     N("substCash", 8, BE) >>

szse_Extend201502 ==
  << S("shareProperty", 2) >>

szse_Extend201602 ==
  << S("contractAccountCode", 6) >>

szse_Extend201702 ==
  << N("cashOrderQty", 8, BE) >>

szse_Extend201802 ==
  << S("tenderer", 6) >>

szse_Extend202702 ==
  << S("disposalPbu", 6),
     S("disposalAccountId", 12) >>

szse_Extend202802 ==
  << S("lenderPbu", 6),
     S("lenderAccountId", 12) >>

szse_Extend202902 ==
  << S("deductionPbu", 6),
     S("deductionAccountId", 12) >>

szse_Extend203102 ==
  << S("insufficientSecurityId", 8),
     N("noSecurity", 4, BE),
     S("underlyingSecurityId", 8),
     S("underlyingSecurityIdsource", 4),
     N("deliveryQty", 8, BE) >>

szse_Extend203502 ==
  << S("contractAccountCode", 6) >>

szse_Extend203702 ==
  << S("cashMargin", 1) >>

szse_Extend203715 ==
  << S("cashMargin", 1) >>

szse_Extend204102 ==
  << N("stopPx", 8, BE),
     N("minQty", 8, BE),
     N("maxPriceLevels", 2, BE),
     S("timeInForce", 1),
     S("cashMargin", 1) >>

szse_Extend204115 ==
  << S("cashMargin", 1),
     N("settlType", 2, BE),
     N("settlPeriod", 1, BE),
     S("counterpartyMemberId", 6),
     S("counterpartyInvestorType", 2),
     S("counterpartyInvestorId", 10),
     S("counterpartyInvestorName", 120),
     S("counterpartyTraderCode", 8) >>

szse_Extend204129 ==
  << S("memberId", 6),
     S("investorType", 2),
     S("investorId", 10),
     S("investorName", 120),
     S("traderCode", 8),
     S("secondaryOrderId", 16),
     N("bidTransType", 2, BE),
     N("bidExecInstType", 2, BE),
     N("lowLimitPrice", 8, BE),
     N("highLimitPrice", 8, BE),
     N("minQty", 8, BE),
     N("tradeDate", 4, BE),
     N("settlType", 2, BE),
     N("settlPeriod", 1, BE),
     N("preTradeAnonymity", 1, BE),
     S("cashMargin", 1),
     S("memo", 160) >>

szse_Extend204130 ==
  << S("memberId", 6),
     S("investorType", 2),
     S("investorId", 10),
     S("investorName", 120),
     S("traderCode", 8),
     S("counterpartyMemberId", 6),
     S("counterpartyInvestorType", 2),
     S("counterpartyInvestorId", 10),
     S("counterpartyInvestorName", 120),
     S("counterpartyTraderCode", 8),
     S("secondaryOrderId", 16),
     N("bidTransType", 2, BE),
     N("bidExecInstType", 2, BE),
     N("settlType", 2, BE),
     N("settlPeriod", 1, BE),
     S("cashMargin", 1),
     S("memo", 160) >>

szse_Extend204702 ==
  << S("secondaryOrderId", 16) >>

szse_Extend204715 ==
  << N("expirationDays", 2, BE),
     N("expirationType", 1, BE),
     N("maturityDate", 4, BE),
     S("shareProperty", 2) >>

szse_Extend206302 ==
  << S("rejectText", 16),
     N("stopPx", 8, BE),
     N("minQty", 8, BE),
     N("maxPriceLevels", 2, BE),
     S("timeInForce", 1),
     S("lotType", 1),
     N("imcrejectTextLen", 4, BE),
     V("imcrejectText", 4, BE) >>

szse_Extend206315 ==
  << S("cashMargin", 1) >>

szse_Heartbeat ==
  <<  >>

szse_Logon ==
  << S("senderCompId", 20),
     S("targetCompId", 20),
     N("heartBtint", 4, BE),
     S("password", 16),
     S("defaultApplVerId", 32) >>

szse_Logout ==
  << N("sessionStatus", 4, BE),
     S("text", 200) >>

szse_NewOrder ==
  << S("applId", 3),
     S("submittingPbuid", 6),
     S("securityId", 8),
     S("securityIdsource", 4),
     N("ownerType", 2, BE),
     S("clearingFirm", 2),
     N("transactTime", 8, BE),
     S("userInfo", 8),
     S("clOrdId", 10),
     S("accountId", 12),
     S("branchId", 4),
     S("orderRestrictions", 4),
     S("side", 1),
     S("ordType", 1),
     N("orderQty", 8, BE),
     N("price", 8, BE),
     D("applExtend", "applId") >>

szse_OrderCancelRequest ==
  << S("applId", 3),
     S("submittingPbuid", 6),
     S("securityId", 8),
     S("securityIdsource", 4),
     N("ownerType", 2, BE),
     S("clearingFirm", 2),
     N("transactTime", 8, BE),
     S("userInfo", 8),
     S("clOrdId", 10),
     S("origClOrdId", 10),
     S("side", 1),
     S("orderId", 16),
     N("orderQty", 8, BE) >>

szse_PartitionReport ==
  << N("partitionNo", 4, BE),
     N("reportIndex", 8, BE) >>

szse_PlatformInfo ==
  << N("platformId", 2, BE),
     L("platformPartition", 4, BE, O("", "szse_PlatformPartition")) >>

szse_PlatformPartition ==
  << N("partitionNo", 4, BE) >>

szse_PlatformStateInfo ==
  << N("platformId", 2, BE),
     N("platformState", 2, BE) >>

szse_ReportFinished ==
  << N("partitionNo", 4, BE),
     N("reportIndex", 8, BE),
     N("platformId", 2, BE) >>

szse_ReportSynchronization ==
  << L("partitionReport", 4, BE, O("", "szse_PartitionReport")) >>

szse_SzseBinary ==
  << N("msgType", 4, BE),
     BLEN("bodyLength", 4, BE),
     D("body", "msgType"),
     CHK("checksum", 4, BE, "SZSE_BIN") >>

szse_TradingSessionStatus ==
  << S("marketId", 8),
     S("marketSegmentId", 8),
     S("tradingSessionId", 4),
     S("tradingSessionSubId", 4),
     N("tradSesStatus", 2, BE),
     N("tradSesStartTime", 8, BE),
     N("tradSesEndTime", 8, BE) >>

SzseMessages ==
  [ szse_BusinessReject |-> szse_BusinessReject,
    szse_CancelReject |-> szse_CancelReject,
    szse_ExecutionConfirm |-> szse_ExecutionConfirm,
    szse_ExecutionReport |-> szse_ExecutionReport,
    szse_Extend100101 |-> szse_Extend100101,
    szse_Extend100201 |-> szse_Extend100201,
    szse_Extend100301 |-> szse_Extend100301,
    szse_Extend100501 |-> szse_Extend100501,
    szse_Extend100601 |-> szse_Extend100601,
    szse_Extend100701 |-> szse_Extend100701,
    szse_Extend101401 |-> szse_Extend101401,
    szse_Extend101501 |-> szse_Extend101501,
    szse_Extend101601 |-> szse_Extend101601,
    szse_Extend101701 |-> szse_Extend101701,
    szse_Extend101801 |-> szse_Extend101801,
    szse_Extend102701 |-> szse_Extend102701,
    szse_Extend102801 |-> szse_Extend102801,
    szse_Extend102901 |-> szse_Extend102901,
    szse_Extend103501 |-> szse_Extend103501,
    szse_Extend103701 |-> szse_Extend103701,
    szse_Extend104101 |-> szse_Extend104101,
    szse_Extend104128 |-> szse_Extend104128,
    szse_Extend104701 |-> szse_Extend104701,
    szse_Extend106301 |-> szse_Extend106301,
    szse_Extend200102 |-> szse_Extend200102,
    szse_Extend200115 |-> szse_Extend200115,
    szse_Extend200202 |-> szse_Extend200202,
    szse_Extend200215 |-> szse_Extend200215,
    szse_Extend200302 |-> szse_Extend200302,
    szse_Extend200315 |-> szse_Extend200315,
    szse_Extend200402 |-> szse_Extend200402,
    szse_Extend200415 |-> szse_Extend200415,
    szse_Extend200502 |-> szse_Extend200502,
    szse_Extend200515 |-> szse_Extend200515,
    szse_Extend200602 |-> szse_Extend200602,
    szse_Extend200615 |-> szse_Extend200615,
    szse_Extend200702 |-> szse_Extend200702,
    szse_Extend200715 |-> szse_Extend200715,
    szse_Extend201202 |-> szse_Extend201202,
    szse_Extend201502 |-> szse_Extend201502,
    szse_Extend201602 |-> szse_Extend201602,
    szse_Extend201702 |-> szse_Extend201702,
    szse_Extend201802 |-> szse_Extend201802,
    szse_Extend202702 |-> szse_Extend202702,
    szse_Extend202802 |-> szse_Extend202802,
    szse_Extend202902 |-> szse_Extend202902,
    szse_Extend203102 |-> szse_Extend203102,
    szse_Extend203502 |-> szse_Extend203502,
    szse_Extend203702 |-> szse_Extend203702,
    szse_Extend203715 |-> szse_Extend203715,
    szse_Extend204102 |-> szse_Extend204102,
    szse_Extend204115 |-> szse_Extend204115,
    szse_Extend204129 |-> szse_Extend204129,
    szse_Extend204130 |-> szse_Extend204130,
    szse_Extend204702 |-> szse_Extend204702,
    szse_Extend204715 |-> szse_Extend204715,
    szse_Extend206302 |-> szse_Extend206302,
    szse_Extend206315 |-> szse_Extend206315,
    szse_Heartbeat |-> szse_Heartbeat,
    szse_Logon |-> szse_Logon,
    szse_Logout |-> szse_Logout,
    szse_NewOrder |-> szse_NewOrder,
    szse_OrderCancelRequest |-> szse_OrderCancelRequest,
    szse_PartitionReport |-> szse_PartitionReport,
    szse_PlatformInfo |-> szse_PlatformInfo,
    szse_PlatformPartition |-> szse_PlatformPartition,
    szse_PlatformStateInfo |-> szse_PlatformStateInfo,
    szse_ReportFinished |-> szse_ReportFinished,
    szse_ReportSynchronization |-> szse_ReportSynchronization,
    szse_SzseBinary |-> szse_SzseBinary,
    szse_TradingSessionStatus |-> szse_TradingSessionStatus ]

(* ExecutionConfirm: selector -> class of its dynamic part *)
szse_ExecutionConfirm_Types ==
  << <<"010", "szse_Extend200102">>,
     <<"020", "szse_Extend200202">>,
     <<"030", "szse_Extend200302">>,
     <<"051", "szse_Extend200502">>,
     <<"052", "szse_Extend200502">>,
     <<"060", "szse_Extend200602">>,
     <<"061", "szse_Extend200602">>,
     <<"070", "szse_Extend200702">>,
     <<"150", "szse_Extend201502">>,
     <<"151", "szse_Extend201502">>,
     <<"152", "szse_Extend201502">>,
     <<"160", "szse_Extend201602">>,
     <<"170", "szse_Extend201702">>,
     <<"180", "szse_Extend201802">>,
     <<"181", "szse_Extend201802">>,
     <<"270", "szse_Extend202702">>,
     <<"271", "szse_Extend202702">>,
     <<"280", "szse_Extend202802">>,
     <<"281", "szse_Extend202802">>,
     <<"290", "szse_Extend202902">>,
     <<"291", "szse_Extend202902">>,
     <<"630", "szse_Extend206302">>,
     <<"350", "szse_Extend203502">>,
     <<"351", "szse_Extend203502">>,
     <<"370", "szse_Extend203702">>,
     <<"410", "szse_Extend204102">>,
     <<"417", "szse_Extend204129">>,
     <<"470", "szse_Extend204702">> >>

(* ExecutionReport: selector -> class of its dynamic part *)
szse_ExecutionReport_Types ==
  << <<"010", "szse_Extend200115">>,
     <<"020", "szse_Extend200215">>,
     <<"030", "szse_Extend200315">>,
     <<"051", "szse_Extend200515">>,
     <<"052", "szse_Extend200515">>,
     <<"056", "szse_Extend200515">>,
     <<"057", "szse_Extend200515">>,
     <<"060", "szse_Extend200615">>,
     <<"061", "szse_Extend200615">>,
     <<"070", "szse_Extend200715">>,
     <<"630", "szse_Extend206315">>,
     <<"370", "szse_Extend203715">>,
     <<"410", "szse_Extend204115">>,
     <<"412", "szse_Extend204115">>,
     <<"413", "szse_Extend204115">>,
     <<"415", "szse_Extend204115">>,
     <<"416", "szse_Extend204115">>,
     <<"417", "szse_Extend204130">>,
     <<"470", "szse_Extend204715">> >>

(* NewOrder: selector -> class of its dynamic part *)
szse_NewOrder_Types ==
  << <<"010", "szse_Extend100101">>,
     <<"020", "szse_Extend100201">>,
     <<"030", "szse_Extend100301">>,
     <<"051", "szse_Extend100501">>,
     <<"052", "szse_Extend100501">>,
     <<"060", "szse_Extend100601">>,
     <<"061", "szse_Extend100601">>,
     <<"070", "szse_Extend100701">>,
     <<"150", "szse_Extend101501">>,
     <<"151", "szse_Extend101501">>,
     <<"152", "szse_Extend101501">>,
     <<"160", "szse_Extend101601">>,
     <<"170", "szse_Extend101701">>,
     <<"180", "szse_Extend101801">>,
     <<"181", "szse_Extend101801">>,
     <<"270", "szse_Extend102701">>,
     <<"271", "szse_Extend102701">>,
     <<"280", "szse_Extend102801">>,
     <<"281", "szse_Extend102801">>,
     <<"290", "szse_Extend102901">>,
     <<"291", "szse_Extend102901">>,
     <<"630", "szse_Extend106301">>,
     <<"350", "szse_Extend103501">>,
     <<"351", "szse_Extend103501">>,
     <<"370", "szse_Extend103701">>,
     <<"410", "szse_Extend104101">>,
     <<"417", "szse_Extend104128">>,
     <<"470", "szse_Extend104701">> >>

(* SzseBinary: selector -> class of its dynamic part *)
szse_SzseBinary_Types ==
  << <<1, "szse_Logon">>,
     <<2, "szse_Logout">>,
     <<3, "szse_Heartbeat">>,
     <<4, "szse_BusinessReject">>,
     <<5, "szse_ReportSynchronization">>,
     <<6, "szse_PlatformStateInfo">>,
     <<7, "szse_ReportFinished">>,
     <<9, "szse_PlatformPartition">>,
     <<10, "szse_TradingSessionStatus">>,
     <<100101, "szse_NewOrder">>,
     <<100201, "szse_NewOrder">>,
     <<100301, "szse_NewOrder">>,
     <<100401, "szse_NewOrder">>,
     <<100501, "szse_NewOrder">>,
     <<100601, "szse_NewOrder">>,
     <<100701, "szse_NewOrder">>,
     <<101201, "szse_NewOrder">>,
     <<101301, "szse_NewOrder">>,
     <<101401, "szse_NewOrder">>,
     <<101501, "szse_NewOrder">>,
     <<101601, "szse_NewOrder">>,
     <<101701, "szse_NewOrder">>,
     <<101801, "szse_NewOrder">>,
     <<101901, "szse_NewOrder">>,
     <<102301, "szse_NewOrder">>,
     <<102701, "szse_NewOrder">>,
     <<102801, "szse_NewOrder">>,
     <<102901, "szse_NewOrder">>,
     <<103101, "szse_NewOrder">>,
     <<106301, "szse_NewOrder">>,
     <<103301, "szse_NewOrder">>,
     <<103501, "szse_NewOrder">>,
     <<103701, "szse_NewOrder">>,
     <<104101, "szse_NewOrder">>,
     <<104128, "szse_NewOrder">>,
     <<104701, "szse_NewOrder">>,
     <<200102, "szse_ExecutionConfirm">>,
     <<200202, "szse_ExecutionConfirm">>,
     <<200302, "szse_ExecutionConfirm">>,
     <<200402, "szse_ExecutionConfirm">>,
     <<200502, "szse_ExecutionConfirm">>,
     <<200602, "szse_ExecutionConfirm">>,
     <<200702, "szse_ExecutionConfirm">>,
     <<201202, "szse_ExecutionConfirm">>,
     <<201302, "szse_ExecutionConfirm">>,
     <<201402, "szse_ExecutionConfirm">>,
     <<201502, "szse_ExecutionConfirm">>,
     <<201602, "szse_ExecutionConfirm">>,
     <<201702, "szse_ExecutionConfirm">>,
     <<201802, "szse_ExecutionConfirm">>,
     <<201902, "szse_ExecutionConfirm">>,
     <<202202, "szse_ExecutionConfirm">>,
     <<202302, "szse_ExecutionConfirm">>,
     <<202702, "szse_ExecutionConfirm">>,
     <<202802, "szse_ExecutionConfirm">>,
     <<202902, "szse_ExecutionConfirm">>,
     <<203102, "szse_ExecutionConfirm">>,
     <<206302, "szse_ExecutionConfirm">>,
     <<203302, "szse_ExecutionConfirm">>,
     <<203502, "szse_ExecutionConfirm">>,
     <<203702, "szse_ExecutionConfirm">>,
     <<204102, "szse_ExecutionConfirm">>,
     <<204129, "szse_ExecutionConfirm">>,
     <<204702, "szse_ExecutionConfirm">>,
     <<200115, "szse_ExecutionReport">>,
     <<200215, "szse_ExecutionReport">>,
     <<200315, "szse_ExecutionReport">>,
     <<200415, "szse_ExecutionReport">>,
     <<200515, "szse_ExecutionReport">>,
     <<200615, "szse_ExecutionReport">>,
     <<200715, "szse_ExecutionReport">>,
     <<206315, "szse_ExecutionReport">>,
     <<203715, "szse_ExecutionReport">>,
     <<204115, "szse_ExecutionReport">>,
     <<204130, "szse_ExecutionReport">>,
     <<190007, "szse_OrderCancelRequest">>,
     <<290008, "szse_CancelReject">> >>

=============================================================================
