/* Automatically generated by subst.pl --- DO NOT EDIT!!! */

/*
 * FIDOGATE
 *
 * $Id$
 */

#include "fidogate.h"

/***** SEQ_NEWS *****/
static char *cf_p_s_seq_news(char *s)
{
    static char *pval = NULL;
    if(s)
        pval = strsave(s);
    if(! pval)
    {
	if( ! (pval = cf_get_string("SEQ_NEWS", TRUE)) )
	    pval = DEFAULT_SEQ_NEWS;
    }
    return pval;
}
char *cf_p_seq_news(void)
{
    return cf_p_s_seq_news(NULL);
}
char *cf_s_seq_news(char *s)
{
    return cf_p_s_seq_news(s);
}

/***** SEQ_TOSS *****/
static char *cf_p_s_seq_toss(char *s)
{
    static char *pval = NULL;
    if(s)
        pval = strsave(s);
    if(! pval)
    {
	if( ! (pval = cf_get_string("SEQ_TOSS", TRUE)) )
	    pval = DEFAULT_SEQ_TOSS;
    }
    return pval;
}
char *cf_p_seq_toss(void)
{
    return cf_p_s_seq_toss(NULL);
}
char *cf_s_seq_toss(char *s)
{
    return cf_p_s_seq_toss(s);
}

/***** NEWSVARDIR *****/
static char *cf_p_s_newsvardir(char *s)
{
    static char *pval = NULL;
    if(s)
        pval = strsave(s);
    if(! pval)
    {
	if( ! (pval = cf_get_string("NEWSVARDIR", TRUE)) )
	    pval = DEFAULT_NEWSVARDIR;
    }
    return pval;
}
char *cf_p_newsvardir(void)
{
    return cf_p_s_newsvardir(NULL);
}
char *cf_s_newsvardir(char *s)
{
    return cf_p_s_newsvardir(s);
}

/***** PACKING *****/
static char *cf_p_s_packing(char *s)
{
    static char *pval = NULL;
    if(s)
        pval = strsave(s);
    if(! pval)
    {
	if( ! (pval = cf_get_string("PACKING", TRUE)) )
	    pval = DEFAULT_PACKING;
    }
    return pval;
}
char *cf_p_packing(void)
{
    return cf_p_s_packing(NULL);
}
char *cf_s_packing(char *s)
{
    return cf_p_s_packing(s);
}

/***** CONFIGDIR *****/
static char *cf_p_s_configdir(char *s)
{
    static char *pval = NULL;
    if(s)
        pval = strsave(s);
    if(! pval)
    {
	if( ! (pval = cf_get_string("CONFIGDIR", TRUE)) )
	    pval = DEFAULT_CONFIGDIR;
    }
    return pval;
}
char *cf_p_configdir(void)
{
    return cf_p_s_configdir(NULL);
}
char *cf_s_configdir(char *s)
{
    return cf_p_s_configdir(s);
}

/***** ROUTING *****/
static char *cf_p_s_routing(char *s)
{
    static char *pval = NULL;
    if(s)
        pval = strsave(s);
    if(! pval)
    {
	if( ! (pval = cf_get_string("ROUTING", TRUE)) )
	    pval = DEFAULT_ROUTING;
    }
    return pval;
}
char *cf_p_routing(void)
{
    return cf_p_s_routing(NULL);
}
char *cf_s_routing(char *s)
{
    return cf_p_s_routing(s);
}

/***** HUBROUTEDB *****/
static char *cf_p_s_hubroutedb(char *s)
{
    static char *pval = NULL;
    if(s)
        pval = strsave(s);
    if(! pval)
    {
	if( ! (pval = cf_get_string("HUBROUTEDB", TRUE)) )
	    pval = DEFAULT_HUBROUTEDB;
    }
    return pval;
}
char *cf_p_hubroutedb(void)
{
    return cf_p_s_hubroutedb(NULL);
}
char *cf_s_hubroutedb(char *s)
{
    return cf_p_s_hubroutedb(s);
}

/***** LOCK_DBC *****/
static char *cf_p_s_lock_dbc(char *s)
{
    static char *pval = NULL;
    if(s)
        pval = strsave(s);
    if(! pval)
    {
	if( ! (pval = cf_get_string("LOCK_DBC", TRUE)) )
	    pval = DEFAULT_LOCK_DBC;
    }
    return pval;
}
char *cf_p_lock_dbc(void)
{
    return cf_p_s_lock_dbc(NULL);
}
char *cf_s_lock_dbc(char *s)
{
    return cf_p_s_lock_dbc(s);
}

/***** TOSS_BAD *****/
static char *cf_p_s_toss_bad(char *s)
{
    static char *pval = NULL;
    if(s)
        pval = strsave(s);
    if(! pval)
    {
	if( ! (pval = cf_get_string("TOSS_BAD", TRUE)) )
	    pval = DEFAULT_TOSS_BAD;
    }
    return pval;
}
char *cf_p_toss_bad(void)
{
    return cf_p_s_toss_bad(NULL);
}
char *cf_s_toss_bad(char *s)
{
    return cf_p_s_toss_bad(s);
}

/***** SEQ_TICK *****/
static char *cf_p_s_seq_tick(char *s)
{
    static char *pval = NULL;
    if(s)
        pval = strsave(s);
    if(! pval)
    {
	if( ! (pval = cf_get_string("SEQ_TICK", TRUE)) )
	    pval = DEFAULT_SEQ_TICK;
    }
    return pval;
}
char *cf_p_seq_tick(void)
{
    return cf_p_s_seq_tick(NULL);
}
char *cf_s_seq_tick(char *s)
{
    return cf_p_s_seq_tick(s);
}

/***** BINDIR *****/
static char *cf_p_s_bindir(char *s)
{
    static char *pval = NULL;
    if(s)
        pval = strsave(s);
    if(! pval)
    {
	if( ! (pval = cf_get_string("BINDIR", TRUE)) )
	    pval = DEFAULT_BINDIR;
    }
    return pval;
}
char *cf_p_bindir(void)
{
    return cf_p_s_bindir(NULL);
}
char *cf_s_bindir(char *s)
{
    return cf_p_s_bindir(s);
}

/***** SPOOLDIR *****/
static char *cf_p_s_spooldir(char *s)
{
    static char *pval = NULL;
    if(s)
        pval = strsave(s);
    if(! pval)
    {
	if( ! (pval = cf_get_string("SPOOLDIR", TRUE)) )
	    pval = DEFAULT_SPOOLDIR;
    }
    return pval;
}
char *cf_p_spooldir(void)
{
    return cf_p_s_spooldir(NULL);
}
char *cf_s_spooldir(char *s)
{
    return cf_p_s_spooldir(s);
}

/***** SEQ_MSGID *****/
static char *cf_p_s_seq_msgid(char *s)
{
    static char *pval = NULL;
    if(s)
        pval = strsave(s);
    if(! pval)
    {
	if( ! (pval = cf_get_string("SEQ_MSGID", TRUE)) )
	    pval = DEFAULT_SEQ_MSGID;
    }
    return pval;
}
char *cf_p_seq_msgid(void)
{
    return cf_p_s_seq_msgid(NULL);
}
char *cf_s_seq_msgid(char *s)
{
    return cf_p_s_seq_msgid(s);
}

/***** HISTORY *****/
static char *cf_p_s_history(char *s)
{
    static char *pval = NULL;
    if(s)
        pval = strsave(s);
    if(! pval)
    {
	if( ! (pval = cf_get_string("HISTORY", TRUE)) )
	    pval = DEFAULT_HISTORY;
    }
    return pval;
}
char *cf_p_history(void)
{
    return cf_p_s_history(NULL);
}
char *cf_s_history(char *s)
{
    return cf_p_s_history(s);
}

/***** NEWSLIBDIR *****/
static char *cf_p_s_newslibdir(char *s)
{
    static char *pval = NULL;
    if(s)
        pval = strsave(s);
    if(! pval)
    {
	if( ! (pval = cf_get_string("NEWSLIBDIR", TRUE)) )
	    pval = DEFAULT_NEWSLIBDIR;
    }
    return pval;
}
char *cf_p_newslibdir(void)
{
    return cf_p_s_newslibdir(NULL);
}
char *cf_s_newslibdir(char *s)
{
    return cf_p_s_newslibdir(s);
}

/***** CHARSETMAP *****/
static char *cf_p_s_charsetmap(char *s)
{
    static char *pval = NULL;
    if(s)
        pval = strsave(s);
    if(! pval)
    {
	if( ! (pval = cf_get_string("CHARSETMAP", TRUE)) )
	    pval = DEFAULT_CHARSETMAP;
    }
    return pval;
}
char *cf_p_charsetmap(void)
{
    return cf_p_s_charsetmap(NULL);
}
char *cf_s_charsetmap(char *s)
{
    return cf_p_s_charsetmap(s);
}

/***** NEWSBINDIR *****/
static char *cf_p_s_newsbindir(char *s)
{
    static char *pval = NULL;
    if(s)
        pval = strsave(s);
    if(! pval)
    {
	if( ! (pval = cf_get_string("NEWSBINDIR", TRUE)) )
	    pval = DEFAULT_NEWSBINDIR;
    }
    return pval;
}
char *cf_p_newsbindir(void)
{
    return cf_p_s_newsbindir(NULL);
}
char *cf_s_newsbindir(char *s)
{
    return cf_p_s_newsbindir(s);
}

/***** DBC_HISTORY *****/
static char *cf_p_s_dbc_history(char *s)
{
    static char *pval = NULL;
    if(s)
        pval = strsave(s);
    if(! pval)
    {
	if( ! (pval = cf_get_string("DBC_HISTORY", TRUE)) )
	    pval = DEFAULT_DBC_HISTORY;
    }
    return pval;
}
char *cf_p_dbc_history(void)
{
    return cf_p_s_dbc_history(NULL);
}
char *cf_s_dbc_history(char *s)
{
    return cf_p_s_dbc_history(s);
}

/***** AREAS *****/
static char *cf_p_s_areas(char *s)
{
    static char *pval = NULL;
    if(s)
        pval = strsave(s);
    if(! pval)
    {
	if( ! (pval = cf_get_string("AREAS", TRUE)) )
	    pval = DEFAULT_AREAS;
    }
    return pval;
}
char *cf_p_areas(void)
{
    return cf_p_s_areas(NULL);
}
char *cf_s_areas(char *s)
{
    return cf_p_s_areas(s);
}

/***** BTBASEDIR *****/
static char *cf_p_s_btbasedir(char *s)
{
    static char *pval = NULL;
    if(s)
        pval = strsave(s);
    if(! pval)
    {
	if( ! (pval = cf_get_string("BTBASEDIR", TRUE)) )
	    pval = DEFAULT_BTBASEDIR;
    }
    return pval;
}
char *cf_p_btbasedir(void)
{
    return cf_p_s_btbasedir(NULL);
}
char *cf_s_btbasedir(char *s)
{
    return cf_p_s_btbasedir(s);
}

/***** VARDIR *****/
static char *cf_p_s_vardir(char *s)
{
    static char *pval = NULL;
    if(s)
        pval = strsave(s);
    if(! pval)
    {
	if( ! (pval = cf_get_string("VARDIR", TRUE)) )
	    pval = DEFAULT_VARDIR;
    }
    return pval;
}
char *cf_p_vardir(void)
{
    return cf_p_s_vardir(NULL);
}
char *cf_s_vardir(char *s)
{
    return cf_p_s_vardir(s);
}

/***** SEQ_PACK *****/
static char *cf_p_s_seq_pack(char *s)
{
    static char *pval = NULL;
    if(s)
        pval = strsave(s);
    if(! pval)
    {
	if( ! (pval = cf_get_string("SEQ_PACK", TRUE)) )
	    pval = DEFAULT_SEQ_PACK;
    }
    return pval;
}
char *cf_p_seq_pack(void)
{
    return cf_p_s_seq_pack(NULL);
}
char *cf_s_seq_pack(char *s)
{
    return cf_p_s_seq_pack(s);
}

/***** OUTRFC_MAIL *****/
static char *cf_p_s_outrfc_mail(char *s)
{
    static char *pval = NULL;
    if(s)
        pval = strsave(s);
    if(! pval)
    {
	if( ! (pval = cf_get_string("OUTRFC_MAIL", TRUE)) )
	    pval = DEFAULT_OUTRFC_MAIL;
    }
    return pval;
}
char *cf_p_outrfc_mail(void)
{
    return cf_p_s_outrfc_mail(NULL);
}
char *cf_s_outrfc_mail(char *s)
{
    return cf_p_s_outrfc_mail(s);
}

/***** FTPINBOUND *****/
static char *cf_p_s_ftpinbound(char *s)
{
    static char *pval = NULL;
    if(s)
        pval = strsave(s);
    if(! pval)
    {
	if( ! (pval = cf_get_string("FTPINBOUND", TRUE)) )
	    pval = DEFAULT_FTPINBOUND;
    }
    return pval;
}
char *cf_p_ftpinbound(void)
{
    return cf_p_s_ftpinbound(NULL);
}
char *cf_s_ftpinbound(char *s)
{
    return cf_p_s_ftpinbound(s);
}

/***** LOGDIR *****/
static char *cf_p_s_logdir(char *s)
{
    static char *pval = NULL;
    if(s)
        pval = strsave(s);
    if(! pval)
    {
	if( ! (pval = cf_get_string("LOGDIR", TRUE)) )
	    pval = DEFAULT_LOGDIR;
    }
    return pval;
}
char *cf_p_logdir(void)
{
    return cf_p_s_logdir(NULL);
}
char *cf_s_logdir(char *s)
{
    return cf_p_s_logdir(s);
}

/***** TOSS_ROUTE *****/
static char *cf_p_s_toss_route(char *s)
{
    static char *pval = NULL;
    if(s)
        pval = strsave(s);
    if(! pval)
    {
	if( ! (pval = cf_get_string("TOSS_ROUTE", TRUE)) )
	    pval = DEFAULT_TOSS_ROUTE;
    }
    return pval;
}
char *cf_p_toss_route(void)
{
    return cf_p_s_toss_route(NULL);
}
char *cf_s_toss_route(char *s)
{
    return cf_p_s_toss_route(s);
}

/***** LIBEXECDIR *****/
static char *cf_p_s_libexecdir(char *s)
{
    static char *pval = NULL;
    if(s)
        pval = strsave(s);
    if(! pval)
    {
	if( ! (pval = cf_get_string("LIBEXECDIR", TRUE)) )
	    pval = DEFAULT_LIBEXECDIR;
    }
    return pval;
}
char *cf_p_libexecdir(void)
{
    return cf_p_s_libexecdir(NULL);
}
char *cf_s_libexecdir(char *s)
{
    return cf_p_s_libexecdir(s);
}

/***** OUTPKT_NEWS *****/
static char *cf_p_s_outpkt_news(char *s)
{
    static char *pval = NULL;
    if(s)
        pval = strsave(s);
    if(! pval)
    {
	if( ! (pval = cf_get_string("OUTPKT_NEWS", TRUE)) )
	    pval = DEFAULT_OUTPKT_NEWS;
    }
    return pval;
}
char *cf_p_outpkt_news(void)
{
    return cf_p_s_outpkt_news(NULL);
}
char *cf_s_outpkt_news(char *s)
{
    return cf_p_s_outpkt_news(s);
}

/***** TIC_HISTORY *****/
static char *cf_p_s_tic_history(char *s)
{
    static char *pval = NULL;
    if(s)
        pval = strsave(s);
    if(! pval)
    {
	if( ! (pval = cf_get_string("TIC_HISTORY", TRUE)) )
	    pval = DEFAULT_TIC_HISTORY;
    }
    return pval;
}
char *cf_p_tic_history(void)
{
    return cf_p_s_tic_history(NULL);
}
char *cf_s_tic_history(char *s)
{
    return cf_p_s_tic_history(s);
}

/***** INN_BATCHDIR *****/
static char *cf_p_s_inn_batchdir(char *s)
{
    static char *pval = NULL;
    if(s)
        pval = strsave(s);
    if(! pval)
    {
	if( ! (pval = cf_get_string("INN_BATCHDIR", TRUE)) )
	    pval = DEFAULT_INN_BATCHDIR;
    }
    return pval;
}
char *cf_p_inn_batchdir(void)
{
    return cf_p_s_inn_batchdir(NULL);
}
char *cf_s_inn_batchdir(char *s)
{
    return cf_p_s_inn_batchdir(s);
}

/***** TOSS_PACK *****/
static char *cf_p_s_toss_pack(char *s)
{
    static char *pval = NULL;
    if(s)
        pval = strsave(s);
    if(! pval)
    {
	if( ! (pval = cf_get_string("TOSS_PACK", TRUE)) )
	    pval = DEFAULT_TOSS_PACK;
    }
    return pval;
}
char *cf_p_toss_pack(void)
{
    return cf_p_s_toss_pack(NULL);
}
char *cf_s_toss_pack(char *s)
{
    return cf_p_s_toss_pack(s);
}

/***** NEWSSPOOLDIR *****/
static char *cf_p_s_newsspooldir(char *s)
{
    static char *pval = NULL;
    if(s)
        pval = strsave(s);
    if(! pval)
    {
	if( ! (pval = cf_get_string("NEWSSPOOLDIR", TRUE)) )
	    pval = DEFAULT_NEWSSPOOLDIR;
    }
    return pval;
}
char *cf_p_newsspooldir(void)
{
    return cf_p_s_newsspooldir(NULL);
}
char *cf_s_newsspooldir(char *s)
{
    return cf_p_s_newsspooldir(s);
}

/***** LOGFILE *****/
static char *cf_p_s_logfile(char *s)
{
    static char *pval = NULL;
    if(s)
        pval = strsave(s);
    if(! pval)
    {
	if( ! (pval = cf_get_string("LOGFILE", TRUE)) )
	    pval = DEFAULT_LOGFILE;
    }
    return pval;
}
char *cf_p_logfile(void)
{
    return cf_p_s_logfile(NULL);
}
char *cf_s_logfile(char *s)
{
    return cf_p_s_logfile(s);
}

/***** TICK_HOLD *****/
static char *cf_p_s_tick_hold(char *s)
{
    static char *pval = NULL;
    if(s)
        pval = strsave(s);
    if(! pval)
    {
	if( ! (pval = cf_get_string("TICK_HOLD", TRUE)) )
	    pval = DEFAULT_TICK_HOLD;
    }
    return pval;
}
char *cf_p_tick_hold(void)
{
    return cf_p_s_tick_hold(NULL);
}
char *cf_s_tick_hold(char *s)
{
    return cf_p_s_tick_hold(s);
}

/***** PASSWD *****/
static char *cf_p_s_passwd(char *s)
{
    static char *pval = NULL;
    if(s)
        pval = strsave(s);
    if(! pval)
    {
	if( ! (pval = cf_get_string("PASSWD", TRUE)) )
	    pval = DEFAULT_PASSWD;
    }
    return pval;
}
char *cf_p_passwd(void)
{
    return cf_p_s_passwd(NULL);
}
char *cf_s_passwd(char *s)
{
    return cf_p_s_passwd(s);
}

/***** OUTPKT_MAIL *****/
static char *cf_p_s_outpkt_mail(char *s)
{
    static char *pval = NULL;
    if(s)
        pval = strsave(s);
    if(! pval)
    {
	if( ! (pval = cf_get_string("OUTPKT_MAIL", TRUE)) )
	    pval = DEFAULT_OUTPKT_MAIL;
    }
    return pval;
}
char *cf_p_outpkt_mail(void)
{
    return cf_p_s_outpkt_mail(NULL);
}
char *cf_s_outpkt_mail(char *s)
{
    return cf_p_s_outpkt_mail(s);
}

/***** HOSTS *****/
static char *cf_p_s_hosts(char *s)
{
    static char *pval = NULL;
    if(s)
        pval = strsave(s);
    if(! pval)
    {
	if( ! (pval = cf_get_string("HOSTS", TRUE)) )
	    pval = DEFAULT_HOSTS;
    }
    return pval;
}
char *cf_p_hosts(void)
{
    return cf_p_s_hosts(NULL);
}
char *cf_s_hosts(char *s)
{
    return cf_p_s_hosts(s);
}

/***** ALIASES *****/
static char *cf_p_s_aliases(char *s)
{
    static char *pval = NULL;
    if(s)
        pval = strsave(s);
    if(! pval)
    {
	if( ! (pval = cf_get_string("ALIASES", TRUE)) )
	    pval = DEFAULT_ALIASES;
    }
    return pval;
}
char *cf_p_aliases(void)
{
    return cf_p_s_aliases(NULL);
}
char *cf_s_aliases(char *s)
{
    return cf_p_s_aliases(s);
}

/***** LOCK_TIC_HIST *****/
static char *cf_p_s_lock_tic_hist(char *s)
{
    static char *pval = NULL;
    if(s)
        pval = strsave(s);
    if(! pval)
    {
	if( ! (pval = cf_get_string("LOCK_TIC_HIST", TRUE)) )
	    pval = DEFAULT_LOCK_TIC_HIST;
    }
    return pval;
}
char *cf_p_lock_tic_hist(void)
{
    return cf_p_s_lock_tic_hist(NULL);
}
char *cf_s_lock_tic_hist(char *s)
{
    return cf_p_s_lock_tic_hist(s);
}

/***** SEQ_PKT *****/
static char *cf_p_s_seq_pkt(char *s)
{
    static char *pval = NULL;
    if(s)
        pval = strsave(s);
    if(! pval)
    {
	if( ! (pval = cf_get_string("SEQ_PKT", TRUE)) )
	    pval = DEFAULT_SEQ_PKT;
    }
    return pval;
}
char *cf_p_seq_pkt(void)
{
    return cf_p_s_seq_pkt(NULL);
}
char *cf_s_seq_pkt(char *s)
{
    return cf_p_s_seq_pkt(s);
}

/***** OUTRFC_NEWS *****/
static char *cf_p_s_outrfc_news(char *s)
{
    static char *pval = NULL;
    if(s)
        pval = strsave(s);
    if(! pval)
    {
	if( ! (pval = cf_get_string("OUTRFC_NEWS", TRUE)) )
	    pval = DEFAULT_OUTRFC_NEWS;
    }
    return pval;
}
char *cf_p_outrfc_news(void)
{
    return cf_p_s_outrfc_news(NULL);
}
char *cf_s_outrfc_news(char *s)
{
    return cf_p_s_outrfc_news(s);
}

/***** FTNACL *****/
static char *cf_p_s_ftnacl(char *s)
{
    static char *pval = NULL;
    if(s)
        pval = strsave(s);
    if(! pval)
    {
	if( ! (pval = cf_get_string("FTNACL", TRUE)) )
	    pval = DEFAULT_FTNACL;
    }
    return pval;
}
char *cf_p_ftnacl(void)
{
    return cf_p_s_ftnacl(NULL);
}
char *cf_s_ftnacl(char *s)
{
    return cf_p_s_ftnacl(s);
}

/***** LOCKDIR *****/
static char *cf_p_s_lockdir(char *s)
{
    static char *pval = NULL;
    if(s)
        pval = strsave(s);
    if(! pval)
    {
	if( ! (pval = cf_get_string("LOCKDIR", TRUE)) )
	    pval = DEFAULT_LOCKDIR;
    }
    return pval;
}
char *cf_p_lockdir(void)
{
    return cf_p_s_lockdir(NULL);
}
char *cf_s_lockdir(char *s)
{
    return cf_p_s_lockdir(s);
}

/***** ACL *****/
static char *cf_p_s_acl(char *s)
{
    static char *pval = NULL;
    if(s)
        pval = strsave(s);
    if(! pval)
    {
	if( ! (pval = cf_get_string("ACL", TRUE)) )
	    pval = DEFAULT_ACL;
    }
    return pval;
}
char *cf_p_acl(void)
{
    return cf_p_s_acl(NULL);
}
char *cf_s_acl(char *s)
{
    return cf_p_s_acl(s);
}

/***** OUTPKT *****/
static char *cf_p_s_outpkt(char *s)
{
    static char *pval = NULL;
    if(s)
        pval = strsave(s);
    if(! pval)
    {
	if( ! (pval = cf_get_string("OUTPKT", TRUE)) )
	    pval = DEFAULT_OUTPKT;
    }
    return pval;
}
char *cf_p_outpkt(void)
{
    return cf_p_s_outpkt(NULL);
}
char *cf_s_outpkt(char *s)
{
    return cf_p_s_outpkt(s);
}

/***** TOSS_TOSS *****/
static char *cf_p_s_toss_toss(char *s)
{
    static char *pval = NULL;
    if(s)
        pval = strsave(s);
    if(! pval)
    {
	if( ! (pval = cf_get_string("TOSS_TOSS", TRUE)) )
	    pval = DEFAULT_TOSS_TOSS;
    }
    return pval;
}
char *cf_p_toss_toss(void)
{
    return cf_p_s_toss_toss(NULL);
}
char *cf_s_toss_toss(char *s)
{
    return cf_p_s_toss_toss(s);
}

/***** SPYES *****/
static char *cf_p_s_spyes(char *s)
{
    static char *pval = NULL;
    if(s)
        pval = strsave(s);
    if(! pval)
    {
	if( ! (pval = cf_get_string("SPYES", TRUE)) )
	    pval = DEFAULT_SPYES;
    }
    return pval;
}
char *cf_p_spyes(void)
{
    return cf_p_s_spyes(NULL);
}
char *cf_s_spyes(char *s)
{
    return cf_p_s_spyes(s);
}

/***** NETMAILDIR *****/
static char *cf_p_s_netmaildir(char *s)
{
    static char *pval = NULL;
    if(s)
        pval = strsave(s);
    if(! pval)
    {
	if( ! (pval = cf_get_string("NETMAILDIR", TRUE)) )
	    pval = DEFAULT_NETMAILDIR;
    }
    return pval;
}
char *cf_p_netmaildir(void)
{
    return cf_p_s_netmaildir(NULL);
}
char *cf_s_netmaildir(char *s)
{
    return cf_p_s_netmaildir(s);
}

/***** INBOUND *****/
static char *cf_p_s_inbound(char *s)
{
    static char *pval = NULL;
    if(s)
        pval = strsave(s);
    if(! pval)
    {
	if( ! (pval = cf_get_string("INBOUND", TRUE)) )
	    pval = DEFAULT_INBOUND;
    }
    return pval;
}
char *cf_p_inbound(void)
{
    return cf_p_s_inbound(NULL);
}
char *cf_s_inbound(char *s)
{
    return cf_p_s_inbound(s);
}

/***** UPLINKS *****/
static char *cf_p_s_uplinks(char *s)
{
    static char *pval = NULL;
    if(s)
        pval = strsave(s);
    if(! pval)
    {
	if( ! (pval = cf_get_string("UPLINKS", TRUE)) )
	    pval = DEFAULT_UPLINKS;
    }
    return pval;
}
char *cf_p_uplinks(void)
{
    return cf_p_s_uplinks(NULL);
}
char *cf_s_uplinks(char *s)
{
    return cf_p_s_uplinks(s);
}

/***** LOCK_HISTORY *****/
static char *cf_p_s_lock_history(char *s)
{
    static char *pval = NULL;
    if(s)
        pval = strsave(s);
    if(! pval)
    {
	if( ! (pval = cf_get_string("LOCK_HISTORY", TRUE)) )
	    pval = DEFAULT_LOCK_HISTORY;
    }
    return pval;
}
char *cf_p_lock_history(void)
{
    return cf_p_s_lock_history(NULL);
}
char *cf_s_lock_history(char *s)
{
    return cf_p_s_lock_history(s);
}

/***** SEQ_MAIL *****/
static char *cf_p_s_seq_mail(char *s)
{
    static char *pval = NULL;
    if(s)
        pval = strsave(s);
    if(! pval)
    {
	if( ! (pval = cf_get_string("SEQ_MAIL", TRUE)) )
	    pval = DEFAULT_SEQ_MAIL;
    }
    return pval;
}
char *cf_p_seq_mail(void)
{
    return cf_p_s_seq_mail(NULL);
}
char *cf_s_seq_mail(char *s)
{
    return cf_p_s_seq_mail(s);
}

/***** PINBOUND *****/
static char *cf_p_s_pinbound(char *s)
{
    static char *pval = NULL;
    if(s)
        pval = strsave(s);
    if(! pval)
    {
	if( ! (pval = cf_get_string("PINBOUND", TRUE)) )
	    pval = DEFAULT_PINBOUND;
    }
    return pval;
}
char *cf_p_pinbound(void)
{
    return cf_p_s_pinbound(NULL);
}
char *cf_s_pinbound(char *s)
{
    return cf_p_s_pinbound(s);
}

/***** UUINBOUND *****/
static char *cf_p_s_uuinbound(char *s)
{
    static char *pval = NULL;
    if(s)
        pval = strsave(s);
    if(! pval)
    {
	if( ! (pval = cf_get_string("UUINBOUND", TRUE)) )
	    pval = DEFAULT_UUINBOUND;
    }
    return pval;
}
char *cf_p_uuinbound(void)
{
    return cf_p_s_uuinbound(NULL);
}
char *cf_s_uuinbound(char *s)
{
    return cf_p_s_uuinbound(s);
}

/***** SEQ_SPLIT *****/
static char *cf_p_s_seq_split(char *s)
{
    static char *pval = NULL;
    if(s)
        pval = strsave(s);
    if(! pval)
    {
	if( ! (pval = cf_get_string("SEQ_SPLIT", TRUE)) )
	    pval = DEFAULT_SEQ_SPLIT;
    }
    return pval;
}
char *cf_p_seq_split(void)
{
    return cf_p_s_seq_split(NULL);
}
char *cf_s_seq_split(char *s)
{
    return cf_p_s_seq_split(s);
}

