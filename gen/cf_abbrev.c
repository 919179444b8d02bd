/* Automatically generated by subst.pl --- DO NOT EDIT!!! */

/*
 * FIDOGATE
 *
 * $Id$
 */

{ 'S', cf_p_spooldir },
{ 'C', cf_p_configdir },
{ 'V', cf_p_vardir },
{ 'N', cf_p_bindir },
{ 'L', cf_p_libexecdir },
{ 'K', cf_p_lockdir },
{ 'B', cf_p_btbasedir },
{ 'I', cf_p_inbound },
{ 'G', cf_p_logdir },
{ 'P', cf_p_pinbound },
