---------------------------- MODULE SchemaBjse ----------------------------
(* Wire tables of the BJSE protocol: for every message class the ordered list of its
   wire fields.  See WireKinds.tla for the field constructors. *)
EXTENDS WireKinds

BjsePackage == "com.finproto.bjse.trade.messages"

bjse_AllegeQuote ==
  << N("partitionNo", 4, LE),
     N("reportIndex", 8, LE),
     S("applId", 3),
     S("reportingPbuid", 6),
     S("submittingPbuid", 6),
     S("securityId", 8),
     S("securityIdsource", 4),
     N("ownerType", 2, LE),
     S("clearingFirm", 2),
     N("transactTime", 8, LE),
     S("userInfo", 32),
     S("orderId", 16),
     S("execId", 16),
     S("clOrdId", 10),
     S("accountId", 10),
     S("quoteReqId", 10),
     S("quoteId", 10),
     S("quoteRespId", 10),
     N("quoteType", 1, BE),
     N("bidPx", 8, LE),
     N("offerPx", 8, LE),
     N("bidSize", 8, LE),
     N("offerSize", 8, LE),
     N("privateQuote", 1, BE),
     N("validUntilTime", 8, LE),
     N("priceType", 1, BE),
     S("memo", 120),
     D("applExtend", "applId") >>

bjse_AllegeQuoteExtend070 ==
  << S("cashMargin", 1),
     S("counterPartyPbuid", 6) >>

bjse_AllegeQuoteResponse ==
  << N("partitionNo", 4, LE),
     N("reportIndex", 8, LE),
     S("applId", 3),
     S("reportingPbuid", 6),
     S("submittingPbuid", 6),
     S("securityId", 8),
     S("securityIdsource", 4),
     N("ownerType", 2, LE),
     S("clearingFirm", 2),
     N("transactTime", 8, LE),
     S("userInfo", 32),
     S("orderId", 16),
     S("execId", 16),
     S("clOrdId", 10),
     S("accountId", 10),
     S("quoteId", 10),
     S("quoteRespId", 10),
     N("quoteRespType", 1, BE),
     N("privateQuote", 1, BE),
     N("orderQty", 8, LE),
     N("price", 8, LE),
     N("validUntilTime", 8, LE),
     N("quoteType", 1, BE),
     N("priceType", 1, BE) >>

bjse_BjseBinary ==
  << N("msgType", 4, LE),
     N("bodyLength", 4, LE),
     D("body", "msgType"),
     N("checksum", 4, LE) >>

bjse_BusinessReject ==
  << S("applId", 3),
     N("transactTime", 8, LE),
     S("submittingPbuid", 6),
     S("securityId", 8),
     S("securityIdsource", 4),
     N("refSeqNum", 8, LE),
     N("refMsgType", 4, LE),
     S("businessRejectRefId", 10),
     N("businessRejectReason", 2, LE),
     S("businessRejectText", 50) >>

bjse_CancelReject ==
  << N("partitionNo", 4, LE),
     N("reportIndex", 8, LE),
     S("applId", 3),
     S("reportingPbuid", 6),
     S("submittingPbuid", 6),
     S("securityId", 8),
     S("securityIdsource", 4),
     N("ownerType", 2, LE),
     S("clearingFirm", 2),
     N("transactTime", 8, LE),
     S("userInfo", 32),
     S("clOrdId", 10),
     S("origClOrdId", 10),
     S("accountId", 10),
     S("branchId", 2),
     S("ordStatus", 1),
     N("cxlRejReason", 2, LE),
     S("rejectText", 16),
     S("orderId", 16) >>

bjse_ConfirmExtend010 ==
  << N("stopPx", 8, LE),
     N("minQty", 8, LE),
     N("maxPriceLevels", 2, LE),
     S("timeInForce", 1),
     S("cashMargin", 1) >>

bjse_ConfirmExtend040 ==
  << N("stopPx", 8, LE),
     N("minQty", 8, LE),
     N("maxPriceLevels", 2, LE),
     S("timeInForce", 1),
     S("cashMargin", 1) >>

bjse_ConfirmExtend041 ==
  <<  >>

bjse_ConfirmExtend042 ==
  <<  >>

bjse_ConfirmExtend043 ==
  <<  >>

bjse_ConfirmExtend044 ==
  <<  >>

bjse_ConfirmExtend045 ==
  <<  >>

bjse_ConfirmExtend050 ==
  << N("expirationDays", 2, LE),
     N("expirationType", 1, BE),
     S("shareProperty", 2) >>

bjse_ExecutionConfirm ==
  << N("partitionNo", 4, LE),
     N("reportIndex", 8, LE),
     S("applId", 3),
     S("reportingPbuid", 6),
     S("submittingPbuid", 6),
     S("securityId", 8),
     S("securityIdsource", 4),
     N("ownerType", 2, LE),
     S("clearingFirm", 2),
     N("transactTime", 8, LE),
     S("userInfo", 32),
     S("orderId", 16),
     S("clOrdId", 10),
     S("origClOrdId", 10),
     S("execId", 16),
     S("execType", 1),
     S("ordStatus", 1),
     N("ordRejReason", 2, LE),
     N("leavesQty", 8, LE),
     N("cumQty", 8, LE),
     S("side", 1),
     S("ordType", 1),
     N("orderQty", 8, LE),
     N("price", 8, LE),
     S("accountId", 10),
     S("branchId", 2),
     S("orderRestrictions", 4),
     D("applExtend", "applId") >>

bjse_ExecutionReport ==
  << N("partitionNo", 4, LE),
     N("reportIndex", 8, LE),
     S("applId", 3),
     S("reportingPbuid", 6),
     S("submittingPbuid", 6),
     S("securityId", 8),
     S("securityIdsource", 4),
     N("ownerType", 2, LE),
     S("clearingFirm", 2),
     N("transactTime", 8, LE),
     S("userInfo", 32),
     S("orderId", 16),
     S("clOrdId", 10),
     S("execId", 16),
     S("execType", 1),
     S("ordStatus", 1),
     N("lastPx", 8, LE),
     N("lastQty", 8, LE),
     N("leavesQty", 8, LE),
     N("cumQty", 8, LE),
     S("side", 1),
     S("accountId", 10),
     S("branchId", 2),
     D("applExtend", "applId") >>

bjse_Extend010 ==
  << N("stopPx", 8, LE),
     N("minQty", 8, LE),
     N("maxPriceLevels", 2, LE),
     N("timeInForce", 1, BE),
     N("cashMargin", 1, BE),
     N("settlType", 1, BE),
     N("settlPeriod", 1, BE) >>

bjse_Extend040 ==
  << N("stopPx", 8, LE),
     N("minQty", 8, LE),
     N("maxPriceLevels", 2, LE),
     N("timeInForce", 1, BE),
     N("cashMargin", 1, BE) >>

bjse_Extend041 ==
  <<  >>

bjse_Extend042 ==
  <<  >>

bjse_Extend043 ==
  <<  >>

bjse_Extend044 ==
  <<  >>

bjse_Extend045 ==
  <<  >>

bjse_Extend050 ==
  << N("expirationDays", 2, LE),
     N("expirationType", 1, BE),
     S("shareProperty", 2) >>

bjse_ExtendNewOrder010 ==
  << N("stopPx", 8, LE),
     N("minQty", 8, LE),
     N("maxPriceLevels", 2, LE),
     S("timeInForce", 1),
     S("cashMargin", 1),
     S("settlType", 1),
     S("settlPeriod", 1) >>

bjse_ExtendNewOrder040 ==
  << N("stopPx", 8, LE),
     N("minQty", 8, LE),
     N("maxPriceLevels", 2, LE),
     S("timeInForce", 1),
     S("cashMargin", 1) >>

bjse_ExtendNewOrder041 ==
  <<  >>

bjse_ExtendNewOrder042 ==
  <<  >>

bjse_ExtendNewOrder043 ==
  <<  >>

bjse_ExtendNewOrder044 ==
  <<  >>

bjse_ExtendNewOrder045 ==
  <<  >>

bjse_ExtendNewOrder050 ==
  << N("expirationDays", 2, LE),
     N("expirationType", 1, BE),
     S("shareProperty", 2) >>

bjse_Heartbeat ==
  <<  >>

bjse_Logon ==
  << S("senderCompId", 20),
     S("targetCompId", 20),
     N("heartBtInt", 4, LE),
     S("password", 16),
     S("defaultApplVerId", 32) >>

bjse_Logout ==
  << N("sessionStatus", 4, LE),
     S("text", 200) >>

bjse_NewOrder ==
  << S("applId", 3),
     S("submittingPbuid", 6),
     S("securityId", 8),
     S("securityIdsource", 4),
     N("ownerType", 2, LE),
     S("clearingFirm", 2),
     N("transactTime", 8, LE),
     S("userInfo", 32),
     S("clOrdId", 10),
     S("accountId", 10),
     S("branchId", 2),
     S("orderRestrictions", 4),
     S("side", 1),
     S("ordType", 1),
     N("orderQty", 8, LE),
     N("price", 8, LE),
     D("applExtend", "applId") >>

bjse_OrderCancelRequest ==
  << S("applId", 3),
     S("submittingPbuid", 6),
     S("securityId", 8),
     S("securityIdsource", 4),
     N("ownerType", 2, LE),
     S("clearingFirm", 2),
     N("transactTime", 8, LE),
     S("userInfo", 32),
     S("clOrdId", 10),
     S("origClOrdId", 10),
     S("accountId", 10),
     S("branchId", 2),
     S("orderId", 16),
     N("orderQty", 8, LE) >>

bjse_PlatformInfo ==
  << N("platformId", 2, LE),
     L("noPartitions", 2, LE, O("", "bjse_PlatformInfo_NoPartitions")) >>

bjse_PlatformInfo_NoPartitions ==
  << N("partitionNo", 4, LE),
     S("partitionName", 20) >>

bjse_PlatformStateInfo ==
  << N("platformId", 2, LE),
     N("platformState", 2, LE) >>

bjse_Quote ==
  << S("applId", 3),
     S("submittingPbuid", 6),
     S("securityId", 8),
     S("securityIdsource", 4),
     N("ownerType", 2, LE),
     S("clearingFirm", 2),
     N("transactTime", 8, LE),
     S("userInfo", 32),
     S("quoteMsgId", 10),
     S("accountId", 10),
     S("quoteReqId", 10),
     N("quoteType", 1, BE),
     N("bidPx", 8, LE),
     N("offerPx", 8, LE),
     N("bidSize", 8, LE),
     N("offerSize", 8, LE),
     D("applExtend", "applId") >>

bjse_QuoteExtend070 ==
  << S("branchId", 2),
     S("quoteId", 10),
     S("quoteRespId", 10),
     N("privateQuote", 1, BE),
     N("validUntilTime", 8, LE),
     N("priceType", 1, BE),
     S("cashMargin", 1),
     S("counterPartyPbuid", 6),
     S("memo", 120) >>

bjse_QuoteExtend071 ==
  <<  >>

bjse_QuoteResponse ==
  << S("applId", 3),
     S("reportingPbuid", 6),
     S("submittingPbuid", 6),
     S("securityId", 8),
     S("securityIdsource", 4),
     N("ownerType", 2, LE),
     S("clearingFirm", 2),
     N("transactTime", 8, LE),
     S("userInfo", 32),
     S("clOrdId", 10),
     S("accountId", 10),
     S("branchId", 2),
     S("quoteRespId", 10),
     N("quoteRespType", 1, BE),
     S("side", 1),
     N("validUntilTime", 8, LE),
     N("quoteType", 1, BE),
     N("priceType", 1, BE),
     L("quote2", 2, LE, O("", "bjse_QuoteResponse_Quote2")),
     D("applExtend", "applId") >>

bjse_QuoteResponse_Quote2 ==
  << S("quoteId", 10),
     N("quotePrice", 8, LE),
     N("quoteQty", 8, LE) >>

bjse_QuoteResponseExtend070 ==
  << S("cashMargin", 1) >>

bjse_QuoteStatusReport ==
  << N("partitionNo", 4, LE),
     N("reportIndex", 8, LE),
     S("applId", 3),
     S("reportingPbuid", 6),
     S("submittingPbuid", 6),
     S("securityId", 8),
     S("securityIdsource", 4),
     N("ownerType", 2, LE),
     S("clearingFirm", 2),
     N("transactTime", 8, LE),
     S("userInfo", 32),
     S("quoteMsgId", 10),
     S("accountId", 10),
     S("quoteReqId", 10),
     N("quoteRjectReason", 8, LE),
     N("quoteType", 1, BE),
     N("bidPx", 8, LE),
     N("offerPx", 8, LE),
     N("bidSize", 8, LE),
     N("offerSize", 8, LE),
     D("applExtend", "applId") >>

bjse_QuoteStatusReportExtend070 ==
  << S("branchId", 2),
     S("orderId", 16),
     S("execId", 16),
     S("quoteRespId", 10),
     N("privateQuote", 1, BE),
     S("side", 1),
     N("priceType", 1, BE),
     N("validUntilTime", 8, LE),
     S("cashMargin", 1),
     S("counterPartyPbuid", 6),
     S("memo", 120),
     L("quote1", 2, LE, O("", "bjse_QuoteStatusReportExtend070_Quote1")) >>

bjse_QuoteStatusReportExtend070_Quote1 ==
  << S("quoteId", 10),
     N("quotePrice", 8, LE),
     N("quoteQty", 8, LE) >>

bjse_ReportExtend010 ==
  << S("cashMargin", 1),
     S("settlType", 1),
     S("settlPeriod", 1) >>

bjse_ReportExtend040 ==
  << S("cashMargin", 1) >>

bjse_ReportExtend050 ==
  << N("expirationDays", 2, LE),
     N("expirationType", 1, BE),
     N("maturityDate", 4, LE),
     S("shareProperty", 2) >>

bjse_ReportFinished ==
  << N("partitionNo", 4, LE),
     N("reportIndex", 8, LE),
     N("platformId", 2, LE) >>

bjse_ReportSynchronization ==
  << L("reportPartitionSync", 2, LE, O("", "bjse_ReportSynchronization_ReportPartitionSync")) >>

bjse_ReportSynchronization_ReportPartitionSync ==
  << N("partitionNo", 4, LE),
     N("reportIndex", 8, LE) >>

bjse_TradeCaptureCofirm ==
  << N("partitionNo", 4, LE),
     N("reportIndex", 8, LE),
     S("applId", 3),
     S("reportingPbuid", 6),
     S("submittingPbuid", 6),
     S("securityId", 8),
     S("securityIdsource", 4),
     N("ownerType", 2, LE),
     S("clearingFirm", 2),
     N("transactTime", 8, LE),
     S("userInfo", 32),
     S("tradeId", 16),
     S("tradeReportId", 10),
     N("tradeReportType", 1, BE),
     N("tradeReportTransType", 1, BE),
     N("tradeHandlingInstr", 1, BE),
     N("lastPx", 8, LE),
     N("lastQty", 8, LE),
     N("trdType", 2, LE),
     N("trdSubType", 2, LE),
     N("confirmId", 4, LE),
     S("execId", 16),
     N("side", 1, BE),
     S("pbuid", 6),
     S("accountId", 10),
     S("branchId", 2),
     S("counterPartyPbuid", 6),
     S("counterPartyAccountId", 10),
     S("counterPartyBranchId", 2),
     D("applExtend", "applId") >>

bjse_TradeCaptureCofirmExtend031 ==
  << S("memberId", 6),
     S("traderCode", 5),
     S("counterPartyMemberId", 6),
     S("counterPartyTraderCode", 5),
     N("settlType", 1, BE),
     N("settlPeriod", 1, BE),
     N("cashMargin", 1, BE),
     S("memo", 120) >>

bjse_TradeCaptureCofirmExtend051 ==
  << N("expirationDays", 2, LE),
     N("expirationType", 1, BE),
     N("maturityDate", 4, LE),
     S("shareProperty", 2) >>

bjse_TradeCaptureCofirmExtend060 ==
  <<  >>

bjse_TradeCaptureCofirmExtend061 ==
  <<  >>

bjse_TradeCaptureCofirmExtend062 ==
  << N("cashMargin", 1, BE) >>

bjse_TradeCaptureConfirm ==
  << N("partitionNo", 4, LE),
     N("reportIndex", 8, LE),
     S("applId", 3),
     S("reportingPbuid", 6),
     S("submittingPbuid", 6),
     S("securityId", 8),
     S("securityIdsource", 4),
     N("ownerType", 2, LE),
     S("clearingFirm", 2),
     N("transactTime", 8, LE),
     S("userInfo", 32),
     S("tradeId", 16),
     S("tradeReportId", 10),
     N("tradeReportType", 1, BE),
     N("tradeReportTransType", 1, BE),
     S("tradeHandlingInstr", 1),
     N("lastPx", 8, LE),
     N("lastQty", 8, LE),
     N("trdType", 2, LE),
     N("trdSubType", 2, LE),
     N("confirmId", 4, LE),
     S("execId", 16),
     S("side", 1),
     S("pbuid", 6),
     S("accountId", 10),
     S("branchId", 2),
     S("counterPartyPbuid", 6),
     S("counterPartyAccountId", 10),
     S("counterPartyBranchId", 2),
     D("applExtend", "applId") >>

bjse_TradeCaptureConfirmExtend031 ==
  << S("memberId", 6),
     S("traderCode", 5),
     S("counterPartyMemberId", 6),
     S("counterPartyTraderCode", 5),
     S("settlType", 1),
     S("settlPeriod", 1),
     S("cashMargin", 1),
     S("memo", 120) >>

bjse_TradeCaptureConfirmExtend051 ==
  << N("expirationDays", 2, LE),
     N("expirationType", 1, BE),
     N("maturityDate", 4, LE),
     S("shareProperty", 2) >>

bjse_TradeCaptureConfirmExtend060 ==
  <<  >>

bjse_TradeCaptureConfirmExtend061 ==
  <<  >>

bjse_TradeCaptureConfirmExtend062 ==
  << S("cashMargin", 1) >>

bjse_TradeCaptureReport ==
  << S("applId", 3),
     S("submittingPbuid", 6),
     S("securityId", 8),
     S("securityIdsource", 4),
     N("ownerType", 2, LE),
     S("clearingFirm", 2),
     N("transactTime", 8, LE),
     S("userInfo", 32),
     S("tradeReportId", 10),
     N("tradeReportType", 1, BE),
     N("tradeReportTransType", 1, BE),
     S("tradeHandlingInstr", 1),
     S("tradeReportRefId", 10),
     N("lastPx", 8, LE),
     N("lastQty", 8, LE),
     N("trdType", 2, LE),
     N("trdSubType", 2, LE),
     N("confirmId", 4, LE),
     S("side", 1),
     S("pbuid", 6),
     S("accountId", 10),
     S("branchId", 2),
     S("counterPartyPbuid", 6),
     S("counterPartyAccountId", 10),
     S("counterPartyBranchId", 2),
     D("applExtend", "applId") >>

bjse_TradeCaptureReportAck ==
  << N("partitionNo", 4, LE),
     N("reportIndex", 8, LE),
     S("applId", 3),
     S("reportingPbuid", 6),
     S("submittingPbuid", 6),
     S("securityId", 8),
     S("securityIdsource", 4),
     N("ownerType", 2, LE),
     S("clearingFirm", 2),
     N("transactTime", 8, LE),
     S("userInfo", 32),
     S("tradeId", 16),
     S("tradeReportId", 10),
     N("tradeReportType", 1, BE),
     N("tradeReportTransType", 1, BE),
     S("tradeHandlingInstr", 1),
     S("tradeReportRefId", 10),
     N("trdAckStatus", 1, BE),
     N("trdRptStatus", 1, BE),
     N("tradeReportRejectReason", 2, LE),
     N("lastPx", 8, LE),
     N("lastQty", 8, LE),
     N("trdType", 2, LE),
     N("trdSubType", 2, LE),
     N("confirmId", 4, LE),
     S("execId", 16),
     S("side", 1),
     S("pbuid", 6),
     S("accountId", 10),
     S("branchId", 2),
     S("counterPartyPbuid", 6),
     S("counterPartyAccountId", 10),
     S("counterPartyBranchId", 2),
     D("applExtend", "applId") >>

bjse_TradeCaptureReportAckExtend031 ==
  << S("memberId", 6),
     S("traderCode", 5),
     S("counterPartyMemberId", 6),
     S("counterPartyTraderCode", 5),
     S("settlType", 1),
     S("settlPeriod", 1),
     S("cashMargin", 1),
     S("memo", 120) >>

bjse_TradeCaptureReportAckExtend051 ==
  << N("expirationDays", 2, LE),
     N("expirationType", 1, BE),
     S("shareProperty", 2) >>

bjse_TradeCaptureReportAckExtend060 ==
  <<  >>

bjse_TradeCaptureReportAckExtend061 ==
  <<  >>

bjse_TradeCaptureReportAckExtend062 ==
  << S("cashMargin", 1) >>

bjse_TradeCaptureReportExtend031 ==
  << S("memberId", 6),
     S("traderCode", 5),
     S("counterPartyMemberId", 6),
     S("counterPartyTraderCode", 5),
     S("settlType", 1),
     S("settlPeriod", 1),
     S("cashMargin", 1),
     S("memo", 120) >>

bjse_TradeCaptureReportExtend051 ==
  << N("expirationDays", 2, LE),
     N("expirationType", 1, BE),
     S("shareProperty", 2) >>

bjse_TradeCaptureReportExtend060 ==
  <<  >>

bjse_TradeCaptureReportExtend061 ==
  <<  >>

bjse_TradeCaptureReportExtend062 ==
  << S("cashMargin", 1) >>

bjse_TradingSessionStatus ==
  << S("marketId", 3),
     S("marketSegmentId", 3),
     S("tradingSessionId", 3),
     S("tradingSessionSubId", 3),
     N("tradSesStatus", 1, BE),
     N("tradSesStartTime", 8, LE) >>

BjseMessages ==
  [ bjse_AllegeQuote |-> bjse_AllegeQuote,
    bjse_AllegeQuoteExtend070 |-> bjse_AllegeQuoteExtend070,
    bjse_AllegeQuoteResponse |-> bjse_AllegeQuoteResponse,
    bjse_BjseBinary |-> bjse_BjseBinary,
    bjse_BusinessReject |-> bjse_BusinessReject,
    bjse_CancelReject |-> bjse_CancelReject,
    bjse_ConfirmExtend010 |-> bjse_ConfirmExtend010,
    bjse_ConfirmExtend040 |-> bjse_ConfirmExtend040,
    bjse_ConfirmExtend041 |-> bjse_ConfirmExtend041,
    bjse_ConfirmExtend042 |-> bjse_ConfirmExtend042,
    bjse_ConfirmExtend043 |-> bjse_ConfirmExtend043,
    bjse_ConfirmExtend044 |-> bjse_ConfirmExtend044,
    bjse_ConfirmExtend045 |-> bjse_ConfirmExtend045,
    bjse_ConfirmExtend050 |-> bjse_ConfirmExtend050,
    bjse_ExecutionConfirm |-> bjse_ExecutionConfirm,
    bjse_ExecutionReport |-> bjse_ExecutionReport,
    bjse_Extend010 |-> bjse_Extend010,
    bjse_Extend040 |-> bjse_Extend040,
    bjse_Extend041 |-> bjse_Extend041,
    bjse_Extend042 |-> bjse_Extend042,
    bjse_Extend043 |-> bjse_Extend043,
    bjse_Extend044 |-> bjse_Extend044,
    bjse_Extend045 |-> bjse_Extend045,
    bjse_Extend050 |-> bjse_Extend050,
    bjse_ExtendNewOrder010 |-> bjse_ExtendNewOrder010,
    bjse_ExtendNewOrder040 |-> bjse_ExtendNewOrder040,
    bjse_ExtendNewOrder041 |-> bjse_ExtendNewOrder041,
    bjse_ExtendNewOrder042 |-> bjse_ExtendNewOrder042,
    bjse_ExtendNewOrder043 |-> bjse_ExtendNewOrder043,
    bjse_ExtendNewOrder044 |-> bjse_ExtendNewOrder044,
    bjse_ExtendNewOrder045 |-> bjse_ExtendNewOrder045,
    bjse_ExtendNewOrder050 |-> bjse_ExtendNewOrder050,
    bjse_Heartbeat |-> bjse_Heartbeat,
    bjse_Logon |-> bjse_Logon,
    bjse_Logout |-> bjse_Logout,
    bjse_NewOrder |-> bjse_NewOrder,
    bjse_OrderCancelRequest |-> bjse_OrderCancelRequest,
    bjse_PlatformInfo |-> bjse_PlatformInfo,
    bjse_PlatformInfo_NoPartitions |-> bjse_PlatformInfo_NoPartitions,
    bjse_PlatformStateInfo |-> bjse_PlatformStateInfo,
    bjse_Quote |-> bjse_Quote,
    bjse_QuoteExtend070 |-> bjse_QuoteExtend070,
    bjse_QuoteExtend071 |-> bjse_QuoteExtend071,
    bjse_QuoteResponse |-> bjse_QuoteResponse,
    bjse_QuoteResponse_Quote2 |-> bjse_QuoteResponse_Quote2,
    bjse_QuoteResponseExtend070 |-> bjse_QuoteResponseExtend070,
    bjse_QuoteStatusReport |-> bjse_QuoteStatusReport,
    bjse_QuoteStatusReportExtend070 |-> bjse_QuoteStatusReportExtend070,
    bjse_QuoteStatusReportExtend070_Quote1 |-> bjse_QuoteStatusReportExtend070_Quote1,
    bjse_ReportExtend010 |-> bjse_ReportExtend010,
    bjse_ReportExtend040 |-> bjse_ReportExtend040,
    bjse_ReportExtend050 |-> bjse_ReportExtend050,
    bjse_ReportFinished |-> bjse_ReportFinished,
    bjse_ReportSynchronization |-> bjse_ReportSynchronization,
    bjse_ReportSynchronization_ReportPartitionSync |-> bjse_ReportSynchronization_ReportPartitionSync,
    bjse_TradeCaptureCofirm |-> bjse_TradeCaptureCofirm,
    bjse_TradeCaptureCofirmExtend031 |-> bjse_TradeCaptureCofirmExtend031,
    bjse_TradeCaptureCofirmExtend051 |-> bjse_TradeCaptureCofirmExtend051,
    bjse_TradeCaptureCofirmExtend060 |-> bjse_TradeCaptureCofirmExtend060,
    bjse_TradeCaptureCofirmExtend061 |-> bjse_TradeCaptureCofirmExtend061,
    bjse_TradeCaptureCofirmExtend062 |-> bjse_TradeCaptureCofirmExtend062,
    bjse_TradeCaptureConfirm |-> bjse_TradeCaptureConfirm,
    bjse_TradeCaptureConfirmExtend031 |-> bjse_TradeCaptureConfirmExtend031,
    bjse_TradeCaptureConfirmExtend051 |-> bjse_TradeCaptureConfirmExtend051,
    bjse_TradeCaptureConfirmExtend060 |-> bjse_TradeCaptureConfirmExtend060,
    bjse_TradeCaptureConfirmExtend061 |-> bjse_TradeCaptureConfirmExtend061,
    bjse_TradeCaptureConfirmExtend062 |-> bjse_TradeCaptureConfirmExtend062,
    bjse_TradeCaptureReport |-> bjse_TradeCaptureReport,
    bjse_TradeCaptureReportAck |-> bjse_TradeCaptureReportAck,
    bjse_TradeCaptureReportAckExtend031 |-> bjse_TradeCaptureReportAckExtend031,
    bjse_TradeCaptureReportAckExtend051 |-> bjse_TradeCaptureReportAckExtend051,
    bjse_TradeCaptureReportAckExtend060 |-> bjse_TradeCaptureReportAckExtend060,
    bjse_TradeCaptureReportAckExtend061 |-> bjse_TradeCaptureReportAckExtend061,
    bjse_TradeCaptureReportAckExtend062 |-> bjse_TradeCaptureReportAckExtend062,
    bjse_TradeCaptureReportExtend031 |-> bjse_TradeCaptureReportExtend031,
    bjse_TradeCaptureReportExtend051 |-> bjse_TradeCaptureReportExtend051,
    bjse_TradeCaptureReportExtend060 |-> bjse_TradeCaptureReportExtend060,
    bjse_TradeCaptureReportExtend061 |-> bjse_TradeCaptureReportExtend061,
    bjse_TradeCaptureReportExtend062 |-> bjse_TradeCaptureReportExtend062,
    bjse_TradingSessionStatus |-> bjse_TradingSessionStatus ]

(* AllegeQuote: selector -> class of its dynamic part *)
bjse_AllegeQuote_Types ==
  << <<"070", "bjse_AllegeQuoteExtend070">> >>

(* BjseBinary: selector -> class of its dynamic part *)
bjse_BjseBinary_Types ==
  << <<1, "bjse_Logon">>,
     <<2, "bjse_Logout">>,
     <<3, "bjse_Heartbeat">>,
     <<101000, "bjse_NewOrder">>,
     <<102000, "bjse_OrderCancelRequest">>,
     <<201000, "bjse_CancelReject">>,
     <<202010, "bjse_ExecutionConfirm">>,
     <<203010, "bjse_ExecutionReport">>,
     <<5, "bjse_ReportSynchronization">>,
     <<6, "bjse_PlatformStateInfo">>,
     <<7, "bjse_ReportFinished">> >>

(* ExecutionConfirm: selector -> class of its dynamic part *)
bjse_ExecutionConfirm_Types ==
  << <<"010", "bjse_ConfirmExtend010">>,
     <<"040", "bjse_ConfirmExtend040">>,
     <<"041", "bjse_ConfirmExtend041">>,
     <<"042", "bjse_ConfirmExtend042">>,
     <<"043", "bjse_ConfirmExtend043">>,
     <<"044", "bjse_ConfirmExtend044">>,
     <<"045", "bjse_ConfirmExtend045">>,
     <<"050", "bjse_ConfirmExtend050">> >>

(* ExecutionReport: selector -> class of its dynamic part *)
bjse_ExecutionReport_Types ==
  << <<"010", "bjse_ReportExtend010">>,
     <<"040", "bjse_ReportExtend040">>,
     <<"050", "bjse_ReportExtend050">> >>

(* NewOrder: selector -> class of its dynamic part *)
bjse_NewOrder_Types ==
  << <<"010", "bjse_ExtendNewOrder010">>,
     <<"040", "bjse_ExtendNewOrder040">>,
     <<"041", "bjse_ExtendNewOrder041">>,
     <<"042", "bjse_ExtendNewOrder042">>,
     <<"043", "bjse_ExtendNewOrder043">>,
     <<"044", "bjse_ExtendNewOrder044">>,
     <<"045", "bjse_ExtendNewOrder045">>,
     <<"050", "bjse_ExtendNewOrder050">> >>

(* Quote: selector -> class of its dynamic part *)
bjse_Quote_Types ==
  << <<"070", "bjse_QuoteExtend070">>,
     <<"071", "bjse_QuoteExtend071">> >>

(* QuoteResponse: selector -> class of its dynamic part *)
bjse_QuoteResponse_Types ==
  << <<"070", "bjse_QuoteResponseExtend070">> >>

(* QuoteStatusReport: selector -> class of its dynamic part *)
bjse_QuoteStatusReport_Types ==
  << <<"070", "bjse_QuoteStatusReportExtend070">> >>

(* TradeCaptureCofirm: selector -> class of its dynamic part *)
bjse_TradeCaptureCofirm_Types ==
  << <<"031", "bjse_TradeCaptureCofirmExtend031">>,
     <<"051", "bjse_TradeCaptureCofirmExtend051">>,
     <<"060", "bjse_TradeCaptureCofirmExtend060">>,
     <<"061", "bjse_TradeCaptureCofirmExtend061">>,
     <<"062", "bjse_TradeCaptureCofirmExtend062">> >>

(* TradeCaptureConfirm: selector -> class of its dynamic part *)
bjse_TradeCaptureConfirm_Types ==
  << <<"031", "bjse_TradeCaptureConfirmExtend031">>,
     <<"051", "bjse_TradeCaptureConfirmExtend051">>,
     <<"060", "bjse_TradeCaptureConfirmExtend060">>,
     <<"061", "bjse_TradeCaptureConfirmExtend061">>,
     <<"062", "bjse_TradeCaptureConfirmExtend062">> >>

(* TradeCaptureReport: selector -> class of its dynamic part *)
bjse_TradeCaptureReport_Types ==
  << <<"031", "bjse_TradeCaptureReportExtend031">>,
     <<"051", "bjse_TradeCaptureReportExtend051">>,
     <<"060", "bjse_TradeCaptureReportExtend060">>,
     <<"061", "bjse_TradeCaptureReportExtend061">>,
     <<"062", "bjse_TradeCaptureReportExtend062">> >>

(* TradeCaptureReportAck: selector -> class of its dynamic part *)
bjse_TradeCaptureReportAck_Types ==
  << <<"031", "bjse_TradeCaptureReportAckExtend031">>,
     <<"051", "bjse_TradeCaptureReportAckExtend051">>,
     <<"060", "bjse_TradeCaptureReportAckExtend060">>,
     <<"061", "bjse_TradeCaptureReportAckExtend061">>,
     <<"062", "bjse_TradeCaptureReportAckExtend062">> >>

=============================================================================
