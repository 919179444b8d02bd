/* Automatically generated by subst.pl --- DO NOT EDIT!!! */

/*
 * FIDOGATE
 *
 * $Id$
 */

char *cf_p_seq_news(void);
char *cf_s_seq_news(char *);
char *cf_p_seq_toss(void);
char *cf_s_seq_toss(char *);
char *cf_p_newsvardir(void);
char *cf_s_newsvardir(char *);
char *cf_p_packing(void);
char *cf_s_packing(char *);
char *cf_p_configdir(void);
char *cf_s_configdir(char *);
char *cf_p_routing(void);
char *cf_s_routing(char *);
char *cf_p_hubroutedb(void);
char *cf_s_hubroutedb(char *);
char *cf_p_lock_dbc(void);
char *cf_s_lock_dbc(char *);
char *cf_p_toss_bad(void);
char *cf_s_toss_bad(char *);
char *cf_p_seq_tick(void);
char *cf_s_seq_tick(char *);
char *cf_p_bindir(void);
char *cf_s_bindir(char *);
char *cf_p_spooldir(void);
char *cf_s_spooldir(char *);
char *cf_p_seq_msgid(void);
char *cf_s_seq_msgid(char *);
char *cf_p_history(void);
char *cf_s_history(char *);
char *cf_p_newslibdir(void);
char *cf_s_newslibdir(char *);
char *cf_p_charsetmap(void);
char *cf_s_charsetmap(char *);
char *cf_p_newsbindir(void);
char *cf_s_newsbindir(char *);
char *cf_p_dbc_history(void);
char *cf_s_dbc_history(char *);
char *cf_p_areas(void);
char *cf_s_areas(char *);
char *cf_p_btbasedir(void);
char *cf_s_btbasedir(char *);
char *cf_p_vardir(void);
char *cf_s_vardir(char *);
char *cf_p_seq_pack(void);
char *cf_s_seq_pack(char *);
char *cf_p_outrfc_mail(void);
char *cf_s_outrfc_mail(char *);
char *cf_p_ftpinbound(void);
char *cf_s_ftpinbound(char *);
char *cf_p_logdir(void);
char *cf_s_logdir(char *);
char *cf_p_toss_route(void);
char *cf_s_toss_route(char *);
char *cf_p_libexecdir(void);
char *cf_s_libexecdir(char *);
char *cf_p_outpkt_news(void);
char *cf_s_outpkt_news(char *);
char *cf_p_tic_history(void);
char *cf_s_tic_history(char *);
char *cf_p_inn_batchdir(void);
char *cf_s_inn_batchdir(char *);
char *cf_p_toss_pack(void);
char *cf_s_toss_pack(char *);
char *cf_p_newsspooldir(void);
char *cf_s_newsspooldir(char *);
char *cf_p_logfile(void);
char *cf_s_logfile(char *);
char *cf_p_tick_hold(void);
char *cf_s_tick_hold(char *);
char *cf_p_passwd(void);
char *cf_s_passwd(char *);
char *cf_p_outpkt_mail(void);
char *cf_s_outpkt_mail(char *);
char *cf_p_hosts(void);
char *cf_s_hosts(char *);
char *cf_p_aliases(void);
char *cf_s_aliases(char *);
char *cf_p_lock_tic_hist(void);
char *cf_s_lock_tic_hist(char *);
char *cf_p_seq_pkt(void);
char *cf_s_seq_pkt(char *);
char *cf_p_outrfc_news(void);
char *cf_s_outrfc_news(char *);
char *cf_p_ftnacl(void);
char *cf_s_ftnacl(char *);
char *cf_p_lockdir(void);
char *cf_s_lockdir(char *);
char *cf_p_acl(void);
char *cf_s_acl(char *);
char *cf_p_outpkt(void);
char *cf_s_outpkt(char *);
char *cf_p_toss_toss(void);
char *cf_s_toss_toss(char *);
char *cf_p_spyes(void);
char *cf_s_spyes(char *);
char *cf_p_netmaildir(void);
char *cf_s_netmaildir(char *);
char *cf_p_inbound(void);
char *cf_s_inbound(char *);
char *cf_p_uplinks(void);
char *cf_s_uplinks(char *);
char *cf_p_lock_history(void);
char *cf_s_lock_history(char *);
char *cf_p_seq_mail(void);
char *cf_s_seq_mail(char *);
char *cf_p_pinbound(void);
char *cf_s_pinbound(char *);
char *cf_p_uuinbound(void);
char *cf_s_uuinbound(char *);
char *cf_p_seq_split(void);
char *cf_s_seq_split(char *);
