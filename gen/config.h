/* config.h.  Generated from config.h.in by configure.  */
/* config.h.in.  Generated from configure.ac by autoheader.  */

/* Enable lookup to INN active file */
#define ACTIVE_LOOKUP 1

/* Enable areafix send echo status */
/* #undef AFSEND_ECHO_STATUS */

/* Enable areafix command `%avail', change behaviour of areafix command
   `%list' */
#define AF_AVAIL 1

/* Restricted access to areafix command `%listall' */
#define AF_LISTALL_RESTRICTED 1

/* Add -a option to HOSTS entries, useful only with PASSTHRU_NET/ECHOMAIL */
/* #undef AI_1 */

/* Rewrite addresses found in ALIASES so that the sender's address is the
   gateway address. The reverse direction requires suitable MTA aliases. */
/* #undef ALIASES_ARE_LOCAL */

/* Change areafix answer when subscibing to area from `subscribe' to `ok'. */
/* #undef ANSWER_OK */

/* AFS set maximum strings in areafix reports */
#define AREAFIXMAXSTR 150

/* Enable best AKA select */
/* #undef BEST_AKA */

/* Default charset for RFC messages with forced 7bit encoding */
#define CHARSET_STD7BIT "us-ascii"

/* Default assumed charset for Fido messages (see also DefaultCharset) */
#define CHARSET_STDFTN "cp866"

/* Default assumed charset for RFC messages if without MIME headers */
#define CHARSET_STDRFC "utf-8"

/* Define to 1 if the `closedir' function returns void instead of int. */
/* #undef CLOSEDIR_VOID */

/* Don't put info about create to log if echo created by forward request */
/* #undef CREATE_LOG_FORWREQ */

/* Define to 1 if using 'alloca.c'. */
/* #undef C_ALLOCA */

/* default mailer command */
/* #undef DEFAULT_MAILER */

/* Delete MIME if rfc status set to 2 */
/* #undef DEL_MIME_IF_RFC2 */

/* Put file descriptions into `.desc/%s.desc' file instead of files.bbs
   .../fileecho/.desc/file.zip.desc -> ".desc", .../fileecho/file.zip.desc ""
   */
#define DESC_DIR ".desc"

/* Paste domain name to Origin message line */
/* #undef DOMAIN_TO_ORIGIN */

/* Create Binkley-style BSY files for all outbound operations */
#define DO_BSY_FILES 1

/* Disable tosting netmail and set directory for incoming and outgoing pkt's
   */
/* #undef DO_NOT_TOSS_NETMAIL */

/* syslog facility used for logging if logfile == "syslog" (only for
   HAS_SYSLOG defined) */
#define FACILITY LOG_LOCAL0

/* Enable passthrought filearea */
#define FECHO_PASSTHROUGHT 1

/* Fix bad year in pkt's */
/* #undef FIX_BAD_PKT_YEAR */

/* Enable if no ftntick CRC control */
#define FTNTICK_NOCRC 1

/* Enable ACL for FTN links */
/* #undef FTN_ACL */

/* Domain for invalid FTN addresses */
#define FTN_INVALID_DOMAIN "INVALID_FTN_ADDRESS"

/* Change ^AVia format from: ^AVia FIDOGATE/ftntoss 2:5030/1229.0,
   20010405.164323.MSK to: ^AVia 2:5030/1229.0 @20010405.164323.MSK
   FIDOGATE/ftntoss */
#define FTS_VIA 1

/* A string containing the git hash */
/* #undef GIT_HASH_STR */

/* Do we have a decent regex library? */
#define HAS_POSIX_REGEX /**/

/* Define to 1 if you have the `alarm' function. */
#define HAVE_ALARM 1

/* Define to 1 if you have 'alloca', as a function or macro. */
#define HAVE_ALLOCA 1

/* Define to 1 if <alloca.h> works. */
#define HAVE_ALLOCA_H 1

/* Define to 1 if you have the declaration of `tzname', and to 0 if you don't.
   */
/* #undef HAVE_DECL_TZNAME */

/* Define to 1 if you have the <dirent.h> header file, and it defines `DIR'.
   */
#define HAVE_DIRENT_H 1

/* Define to 1 if you don't have `vprintf' but do have `_doprnt.' */
/* #undef HAVE_DOPRNT */

/* Define to 1 if you have the <fcntl.h> header file. */
#define HAVE_FCNTL_H 1

/* Define to 1 if you have the `gettimeofday' function. */
#define HAVE_GETTIMEOFDAY 1

/* Define if you have the iconv() function and it works. */
#define HAVE_ICONV 1

/* Define to 1 if you have the <inttypes.h> header file. */
#define HAVE_INTTYPES_H 1

/* Define to 1 if you have the <limits.h> header file. */
#define HAVE_LIMITS_H 1

/* Define to 1 if you have the `link' function. */
#define HAVE_LINK 1

/* Define to 1 if your system has a GNU libc compatible `malloc' function, and
   to 0 otherwise. */
#define HAVE_MALLOC 1

/* Define to 1 if you have the <malloc.h> header file. */
#define HAVE_MALLOC_H 1

/* Define to 1 if you have the `memchr' function. */
#define HAVE_MEMCHR 1

/* Define to 1 if you have the `memset' function. */
#define HAVE_MEMSET 1

/* Define to 1 if you have the `mkdir' function. */
#define HAVE_MKDIR 1

/* Define to 1 if you have the `mktime' function. */
#define HAVE_MKTIME 1

/* Define to 1 if you have the <ndir.h> header file, and it defines `DIR'. */
/* #undef HAVE_NDIR_H */

/* Define to 1 if you have the `regcomp' function. */
#define HAVE_REGCOMP 1

/* Do we have rxposix.h? */
/* #undef HAVE_RX */

/* Define to 1 if you have the `snprintf' function. */
#define HAVE_SNPRINTF 1

/* Define to 1 if you have the `sprintf' function. */
#define HAVE_SPRINTF 1

/* Define to 1 if `stat' has the bug that it succeeds when given the
   zero-length file name argument. */
/* #undef HAVE_STAT_EMPTY_STRING_BUG */

/* Define to 1 if you have the <stddef.h> header file. */
#define HAVE_STDDEF_H 1

/* Define to 1 if you have the <stdint.h> header file. */
#define HAVE_STDINT_H 1

/* Define to 1 if you have the <stdio.h> header file. */
#define HAVE_STDIO_H 1

/* Define to 1 if you have the <stdlib.h> header file. */
#define HAVE_STDLIB_H 1

/* Define to 1 if you have the `strcasecmp' function. */
#define HAVE_STRCASECMP 1

/* Define to 1 if you have the `strchr' function. */
#define HAVE_STRCHR 1

/* Define to 1 if you have the `strerror' function. */
#define HAVE_STRERROR 1

/* Define to 1 if you have the `strftime' function. */
#define HAVE_STRFTIME 1

/* Define to 1 if you have the `stricmp' function. */
/* #undef HAVE_STRICMP */

/* Define to 1 if you have the <strings.h> header file. */
#define HAVE_STRINGS_H 1

/* Define to 1 if you have the <string.h> header file. */
#define HAVE_STRING_H 1

/* Define to 1 if you have the `strncasecmp' function. */
#define HAVE_STRNCASECMP 1

/* Define to 1 if you have the `strpbrk' function. */
#define HAVE_STRPBRK 1

/* Define to 1 if you have the `strrchr' function. */
#define HAVE_STRRCHR 1

/* Define to 1 if you have the `strspn' function. */
#define HAVE_STRSPN 1

/* Define to 1 if you have the `strstr' function. */
#define HAVE_STRSTR 1

/* Define to 1 if `tm_zone' is a member of `struct tm'. */
#define HAVE_STRUCT_TM_TM_ZONE 1

/* Define to 1 if you have the <sysexits.h> header file. */
#define HAVE_SYSEXITS_H 1

/* Define to 1 if you have the `syslog' function. */
#define HAVE_SYSLOG 1

/* Define to 1 if you have the <syslog.h> header file. */
#define HAVE_SYSLOG_H 1

/* Define to 1 if you have the <sys/dir.h> header file, and it defines `DIR'.
   */
/* #undef HAVE_SYS_DIR_H */

/* Define to 1 if you have the <sys/mount.h> header file. */
#define HAVE_SYS_MOUNT_H 1

/* Define to 1 if you have the <sys/ndir.h> header file, and it defines `DIR'.
   */
/* #undef HAVE_SYS_NDIR_H */

/* Define to 1 if you have the <sys/param.h> header file. */
#define HAVE_SYS_PARAM_H 1

/* Define to 1 if you have the <sys/statfs.h> header file. */
#define HAVE_SYS_STATFS_H 1

/* Define to 1 if you have the <sys/statvfs.h> header file. */
#define HAVE_SYS_STATVFS_H 1

/* Define to 1 if you have the <sys/stat.h> header file. */
#define HAVE_SYS_STAT_H 1

/* Define to 1 if you have the <sys/time.h> header file. */
#define HAVE_SYS_TIME_H 1

/* Define to 1 if you have the <sys/types.h> header file. */
#define HAVE_SYS_TYPES_H 1

/* Define to 1 if you have the <sys/vfs.h> header file. */
#define HAVE_SYS_VFS_H 1

/* Define to 1 if you have <sys/wait.h> that is POSIX.1 compatible. */
#define HAVE_SYS_WAIT_H 1

/* Define to 1 if you have the <time.h> header file. */
#define HAVE_TIME_H 1


/* left from initial configurator */
/* #undef HAVE_TM_GMTOFF */


/* Define to 1 if your `struct tm' has `tm_zone'. Deprecated, use
   `HAVE_STRUCT_TM_TM_ZONE' instead. */
#define HAVE_TM_ZONE 1

/* Define to 1 if you don't have `tm_zone' but do have the external array
   `tzname'. */
/* #undef HAVE_TZNAME */

/* Define to 1 if you have the <unistd.h> header file. */
#define HAVE_UNISTD_H 1

/* Define to 1 if you have the `utime' function. */
#define HAVE_UTIME 1

/* Define to 1 if you have the <utime.h> header file. */
#define HAVE_UTIME_H 1

/* Define to 1 if `utime(file, NULL)' sets file's timestamp to the present. */
#define HAVE_UTIME_NULL 1

/* Define to 1 if you have the `vprintf' function. */
#define HAVE_VPRINTF 1

/* Define as const if the declaration of iconv() needs const. */
#define ICONV_CONST 

/* Ignore From: field if REPLYTO or REPLYADDR was found */
/* #undef IGNORE_FROM_IF_REPLY */

/* Don't put insecure mail into dupe database */
#define INSECURE_DONT_PUT_INTO_DUPE_DB 1

/* If Origin line is not present, include link address */
/* #undef INSERT_ORIGIN */

/* Generate local FTN addresses, e.g. user_name%p.f.n.z@host.domain instead of
   user_name@p.f.n.z.domain */
/* #undef LOCAL_FTN_ADDRESSES */

/* Define to 1 if `lstat' dereferences a symlink specified with a trailing
   slash. */
#define LSTAT_FOLLOWS_SLASHED_SYMLINK 1

/* Define to 1 if `major', `minor', and `makedev' are declared in <mkdev.h>.
   */
/* #undef MAJOR_IN_MKDEV */

/* Define to 1 if `major', `minor', and `makedev' are declared in
   <sysmacros.h>. */
#define MAJOR_IN_SYSMACROS 1

/* Default max. message size for FIDO. Due to some more brain damage in
   FIDONET programs we have to split larger messages into several smaller
   ones. May be set with the -M option in AREAS or MaxMsgSize in
   DEFAULT_CONFIG_GATE. < 16 K -- 14000 < 32 K -- 30000 */
#define MAXMSGSIZE 14000

/* Create lock files / BSY files in an NFS-safe way (see man 2 open) */
/* #undef NFS_SAFE_LOCK_FILES */

/* Enable if no insert Origin line if it absence */
/* #undef NOINSERT_ORGANIZATION */

/* Enable use old batcher in runinc program */
/* #undef OLD_BATCHER */

/* Enable old style tosting */
/* #undef OLD_TOSS */

/* Enable overwrite hardlink if file already exist */
#define OVERWRITEN_FECHO_FILE_TO_LINK 1

/* Name of package */
#define PACKAGE "fidogate"

/* Define to the address where bug reports for this package should be sent. */
#define PACKAGE_BUGREPORT "y.kaliuta@gmail.com"

/* Define to the full name of this package. */
#define PACKAGE_NAME "fidogate"

/* Define to the full name and version of this package. */
#define PACKAGE_STRING "fidogate 5.12"

/* Define to the one symbol short name of this package. */
#define PACKAGE_TARNAME "fidogate"

/* Define to the home page for this package. */
#define PACKAGE_URL ""

/* Define to the version of this package. */
#define PACKAGE_VERSION "5.12"

/* Passthru operation for EchoMail: FIDO->Internet->FIDO */
/* #undef PASSTHRU_ECHOMAIL */

/* Passthru operation for NetMail: FIDO->Internet->FIDO */
/* #undef PASSTHRU_NETMAIL */

/* Enable paste ^PID (mail or news reader name) and ^TID (fidogate version)
   kludge */
/* #undef PID_READER_TID_GTV */

/* Recode all RFC headers */
#define RECODE_ALL_RFC 1

/* Recode file descriptions */
#define RECODE_FILE_DESC 1

/* Define as the return type of signal handlers (`int' or `void'). */
#define RETSIGTYPE void

/* For the security reason enabled additional addresses checking in the .pkt
   header, message header, origin and echomail ^aPATH. If the last address in
   PATH is not equal to address in the pkt header, then the address from the
   pkt header is inserted into PATH. */
#define SECURITY 1

/* Enable SN-style active_lookup */
/* #undef SN */

/* Added the feature "spy forwards". */
#define SPYES 1

/* If using the C implementation of alloca, define if you know the
   direction of stack growth for your system; otherwise it will be
   automatically deduced at runtime.
	STACK_DIRECTION > 0 => grows toward higher addresses
	STACK_DIRECTION < 0 => grows toward lower addresses
	STACK_DIRECTION = 0 => direction of growth unknown */
/* #undef STACK_DIRECTION */

/* Define to 1 if all of the C90 standard headers exist (not just the ones
   required in a freestanding environment). This macro is provided for
   backward compatibility; new code need not use it. */
#define STDC_HEADERS 1

/* Enable subscribe autorization only if node listed in zonegate */
/* #undef SUBSCRIBE_ZONEGATE */

/* Enable set limit for subscribe areas */
#define SUB_LIMIT 1

/* Define to 1 if you can safely include both <sys/time.h> and <time.h>. This
   macro is obsolete. */
#define TIME_WITH_SYS_TIME 1

/* Define to 1 if your <sys/time.h> declares `struct tm'. */
/* #undef TM_IN_SYS_TIME */

/* Enable if use fileboxes for fileecho */
#define USE_FILEBOX 1

/* Enable use send_fidogate function in runinc program */
/* #undef USE_RUNINC_SFGT */

/* Enable if you want use syslog for log messages */
/* #undef USE_SYSLOG */

/* Enable if you want to add To header for FTN messages when gating rfc2ftn */
/* #undef USE_XCT */

/* Version number of package */
#define VERSION "5.12"

/* Add `X-FTN-From' header in gated echomail. */
#define X_FTN_FROM_ECHOMAIL 1

/* Define to empty if `const' does not conform to ANSI C. */
/* #undef const */

/* Define to rpl_malloc if the replacement function should be used. */
/* #undef malloc */

/* Define to `int' if <sys/types.h> does not define. */
/* #undef mode_t */

/* Define to `long int' if <sys/types.h> does not define. */
/* #undef off_t */

/* Define as a signed integer type capable of holding a process identifier. */
/* #undef pid_t */

/* Define to `unsigned int' if <sys/types.h> does not define. */
/* #undef size_t */
