/* Automatically generated by subst.pl --- DO NOT EDIT!!! */

/*
 * FIDOGATE
 *
 * $Id$
 */

#define DEFAULT_SEQ_NEWS                "%V/seq/news"
#define DEFAULT_SEQ_TOSS                "%V/seq/toss"
#define DEFAULT_NEWSVARDIR              "/none/news-pathdb"
#define DEFAULT_PACKING                 "%C/packing"
#define DEFAULT_CONFIGDIR               "/usr/local/fido/etc"
#define DEFAULT_SEQ_FF                  "%V/seq/ff"
#define DEFAULT_ROUTING                 "%C/routing"
#define DEFAULT_HUBROUTEDB              "%V/route"
#define DEFAULT_LOCK_DBC                "dbc"
#define DEFAULT_TOSS_BAD                "%S/toss/bad"
#define DEFAULT_SEQ_TICK                "%V/seq/tick"
#define DEFAULT_BINDIR                  "/usr/local/fido/bin"
#define DEFAULT_SPOOLDIR                "/usr/local/fido/var/spool/fidogate"
#define DEFAULT_SEQ_MSGID               "%V/seq/msgid"
#define DEFAULT_HISTORY                 "%V/history"
#define DEFAULT_NEWSLIBDIR              "/none/news-pathnews"
#define DEFAULT_CHARSETMAP              "%L/charset.bin"
#define DEFAULT_NEWSBINDIR              "/none/news-pathbin"
#define DEFAULT_DBC_HISTORY             "%V/bdc"
#define DEFAULT_AREAS                   "%C/areas"
#define DEFAULT_BTBASEDIR               "/usr/local/fido/var/spool/fido/bt"
#define DEFAULT_VARDIR                  "/usr/local/fido/var/lib/fidogate"
#define DEFAULT_SEQ_PACK                "%V/seq/pack"
#define DEFAULT_OUTRFC_MAIL             "%S/outrfc/mail"
#define DEFAULT_FTPINBOUND              "/usr/local/fido/var/spool/fido/bt/ftpin"
#define DEFAULT_LOGDIR                  "/usr/local/fido/var/log/fidogate"
#define DEFAULT_TOSS_ROUTE              "%S/toss/route"
#define DEFAULT_LIBEXECDIR              "/usr/local/fido/libexec"
#define DEFAULT_NEWSETCDIR              "/none/news-pathetc"
#define DEFAULT_OUTPKT_NEWS             "%S/outpkt/news"
#define DEFAULT_TIC_HISTORY             "%V/tic_hist"
#define DEFAULT_INN_BATCHDIR            "/none/news-pathoutgoing"
#define DEFAULT_TOSS_PACK               "%S/toss/pack"
#define DEFAULT_NEWSSPOOLDIR            "/none/news-patharticles"
#define DEFAULT_LOGFILE                 "%G/log"
#define DEFAULT_TICK_HOLD               "%B/tick"
#define DEFAULT_PASSWD                  "%C/passwd"
#define DEFAULT_OUTPKT_MAIL             "%S/outpkt/mail"
#define DEFAULT_HOSTS                   "%C/hosts"
#define DEFAULT_ALIASES                 "%C/aliases"
#define DEFAULT_LOCK_TIC_HIST           "tic_hist"
#define DEFAULT_SEQ_PKT                 "%V/seq/pkt"
#define DEFAULT_OUTRFC_NEWS             "%S/outrfc/news"
#define DEFAULT_CONFIG_MAIN             "%C/fidogate.conf"
#define DEFAULT_FTNACL                  "%C/ftnacl"
#define DEFAULT_LOCKDIR                 "/usr/local/fido/var/run/fidogate"
#define DEFAULT_ACL                     "%C/acl"
#define DEFAULT_OUTPKT                  "%S/outpkt"
#define DEFAULT_CONFIG_GATE             "%C/fidogate.conf"
#define DEFAULT_TOSS_TOSS               "%S/toss/toss"
#define DEFAULT_SPYES                   "%C/spyes"
#define DEFAULT_NETMAILDIR              "/usr/local/fido/var/spool/fido/bt/netmail"
#define DEFAULT_INBOUND                 "/usr/local/fido/var/spool/fido/bt/in"
#define DEFAULT_UPLINKS                 "%C/uplinks"
#define DEFAULT_LOCK_HISTORY            "history"
#define DEFAULT_SEQ_MAIL                "%V/seq/mail"
#define DEFAULT_PINBOUND                "/usr/local/fido/var/spool/fido/bt/pin"
#define DEFAULT_UUINBOUND               "/usr/local/fido/var/spool/fido/bt/uuin"
#define DEFAULT_SEQ_SPLIT               "%V/seq/split"
