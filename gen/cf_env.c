/* Automatically generated by subst.pl --- DO NOT EDIT!!! */

/*
 * FIDOGATE
 *
 * $Id$
 */

    if( (p = getenv("FIDOGATE_SEQ_NEWS")) )
        cf_s_seq_news(p);
    if( (p = getenv("FIDOGATE_SEQ_TOSS")) )
        cf_s_seq_toss(p);
    if( (p = getenv("FIDOGATE_NEWSVARDIR")) )
        cf_s_newsvardir(p);
    if( (p = getenv("FIDOGATE_PACKING")) )
        cf_s_packing(p);
    if( (p = getenv("FIDOGATE_CONFIGDIR")) )
        cf_s_configdir(p);
    if( (p = getenv("FIDOGATE_ROUTING")) )
        cf_s_routing(p);
    if( (p = getenv("FIDOGATE_HUBROUTEDB")) )
        cf_s_hubroutedb(p);
    if( (p = getenv("FIDOGATE_LOCK_DBC")) )
        cf_s_lock_dbc(p);
    if( (p = getenv("FIDOGATE_TOSS_BAD")) )
        cf_s_toss_bad(p);
    if( (p = getenv("FIDOGATE_SEQ_TICK")) )
        cf_s_seq_tick(p);
    if( (p = getenv("FIDOGATE_BINDIR")) )
        cf_s_bindir(p);
    if( (p = getenv("FIDOGATE_SPOOLDIR")) )
        cf_s_spooldir(p);
    if( (p = getenv("FIDOGATE_SEQ_MSGID")) )
        cf_s_seq_msgid(p);
    if( (p = getenv("FIDOGATE_HISTORY")) )
        cf_s_history(p);
    if( (p = getenv("FIDOGATE_NEWSLIBDIR")) )
        cf_s_newslibdir(p);
    if( (p = getenv("FIDOGATE_CHARSETMAP")) )
        cf_s_charsetmap(p);
    if( (p = getenv("FIDOGATE_NEWSBINDIR")) )
        cf_s_newsbindir(p);
    if( (p = getenv("FIDOGATE_DBC_HISTORY")) )
        cf_s_dbc_history(p);
    if( (p = getenv("FIDOGATE_AREAS")) )
        cf_s_areas(p);
    if( (p = getenv("FIDOGATE_BTBASEDIR")) )
        cf_s_btbasedir(p);
    if( (p = getenv("FIDOGATE_VARDIR")) )
        cf_s_vardir(p);
    if( (p = getenv("FIDOGATE_SEQ_PACK")) )
        cf_s_seq_pack(p);
    if( (p = getenv("FIDOGATE_OUTRFC_MAIL")) )
        cf_s_outrfc_mail(p);
    if( (p = getenv("FIDOGATE_FTPINBOUND")) )
        cf_s_ftpinbound(p);
    if( (p = getenv("FIDOGATE_LOGDIR")) )
        cf_s_logdir(p);
    if( (p = getenv("FIDOGATE_TOSS_ROUTE")) )
        cf_s_toss_route(p);
    if( (p = getenv("FIDOGATE_LIBEXECDIR")) )
        cf_s_libexecdir(p);
    if( (p = getenv("FIDOGATE_OUTPKT_NEWS")) )
        cf_s_outpkt_news(p);
    if( (p = getenv("FIDOGATE_TIC_HISTORY")) )
        cf_s_tic_history(p);
    if( (p = getenv("FIDOGATE_INN_BATCHDIR")) )
        cf_s_inn_batchdir(p);
    if( (p = getenv("FIDOGATE_TOSS_PACK")) )
        cf_s_toss_pack(p);
    if( (p = getenv("FIDOGATE_NEWSSPOOLDIR")) )
        cf_s_newsspooldir(p);
    if( (p = getenv("FIDOGATE_LOGFILE")) )
        cf_s_logfile(p);
    if( (p = getenv("FIDOGATE_TICK_HOLD")) )
        cf_s_tick_hold(p);
    if( (p = getenv("FIDOGATE_PASSWD")) )
        cf_s_passwd(p);
    if( (p = getenv("FIDOGATE_OUTPKT_MAIL")) )
        cf_s_outpkt_mail(p);
    if( (p = getenv("FIDOGATE_HOSTS")) )
        cf_s_hosts(p);
    if( (p = getenv("FIDOGATE_ALIASES")) )
        cf_s_aliases(p);
    if( (p = getenv("FIDOGATE_LOCK_TIC_HIST")) )
        cf_s_lock_tic_hist(p);
    if( (p = getenv("FIDOGATE_SEQ_PKT")) )
        cf_s_seq_pkt(p);
    if( (p = getenv("FIDOGATE_OUTRFC_NEWS")) )
        cf_s_outrfc_news(p);
    if( (p = getenv("FIDOGATE_FTNACL")) )
        cf_s_ftnacl(p);
    if( (p = getenv("FIDOGATE_LOCKDIR")) )
        cf_s_lockdir(p);
    if( (p = getenv("FIDOGATE_ACL")) )
        cf_s_acl(p);
    if( (p = getenv("FIDOGATE_OUTPKT")) )
        cf_s_outpkt(p);
    if( (p = getenv("FIDOGATE_TOSS_TOSS")) )
        cf_s_toss_toss(p);
    if( (p = getenv("FIDOGATE_SPYES")) )
        cf_s_spyes(p);
    if( (p = getenv("FIDOGATE_NETMAILDIR")) )
        cf_s_netmaildir(p);
    if( (p = getenv("FIDOGATE_INBOUND")) )
        cf_s_inbound(p);
    if( (p = getenv("FIDOGATE_UPLINKS")) )
        cf_s_uplinks(p);
    if( (p = getenv("FIDOGATE_LOCK_HISTORY")) )
        cf_s_lock_history(p);
    if( (p = getenv("FIDOGATE_SEQ_MAIL")) )
        cf_s_seq_mail(p);
    if( (p = getenv("FIDOGATE_PINBOUND")) )
        cf_s_pinbound(p);
    if( (p = getenv("FIDOGATE_UUINBOUND")) )
        cf_s_uuinbound(p);
    if( (p = getenv("FIDOGATE_SEQ_SPLIT")) )
        cf_s_seq_split(p);
