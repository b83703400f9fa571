/* The C side of the simulator: drives the public API of the repository. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "compiler.h"
#include "macro.h"
#include "workspace.h"
#include "logger.h"
#include "uniio.h"
#include "uniprinter.h"
#include "seam.h"

int ruc_main(int argc, const char *argv[]);

static void on_error(const char *const tag, const char *const msg) { sim_logger(0, tag, msg); }
static void on_warning(const char *const tag, const char *const msg) { sim_logger(1, tag, msg); }
static void on_note(const char *const tag, const char *const msg) { sim_logger(2, tag, msg); }

void job_set_loggers(int custom)
{
	if (custom)
	{
		set_error_log(&on_error);
		set_warning_log(&on_warning);
		set_note_log(&on_note);
	}
}

static void use_workspace(workspace *const ws, const char *how, int *ret)
{
	if (!strcmp(how, "vm")) *ret = compile_to_vm(ws);
	else if (!strcmp(how, "llvm")) *ret = compile_to_llvm(ws);
	else if (!strcmp(how, "mips")) *ret = compile_to_mips(ws);
	else if (!strcmp(how, "file")) *ret = macro_to_file(ws, ws_get_output(ws));
	else
	{
		char *text = macro(ws);
		*ret = text == NULL;
		sim_take_text(text);
		sim_free(text);
	}
}

/* argv of every api: argv[0] is the program name, the rest as for the command line */
int job_run(const char *api, int argc, const char *const *argv, int loggers)
{
	job_set_loggers(loggers);
	if (!strcmp(api, "cli")) return ruc_main(argc, (const char **)argv);
	if (!strcmp(api, "auto")) return auto_compile(argc, argv);
	if (!strcmp(api, "auto_vm")) return auto_compile_to_vm(argc, argv);
	if (!strcmp(api, "auto_llvm")) return auto_compile_to_llvm(argc, argv);
	if (!strcmp(api, "auto_mips")) return auto_compile_to_mips(argc, argv);
	if (!strcmp(api, "nomacro_vm")) return no_macro_compile_to_vm(argv[1]);
	if (!strcmp(api, "nomacro_llvm")) return no_macro_compile_to_llvm(argv[1]);
	if (!strcmp(api, "nomacro_mips")) return no_macro_compile_to_mips(argv[1]);
	if (!strcmp(api, "ws"))
	{
		/* a host that builds the workspace call by call */
		workspace ws = ws_create();
		for (int i = 1; i < argc; i++)
		{
			if (!strcmp(argv[i], "-o") && i + 1 < argc) ws_set_output(&ws, argv[++i]);
			else if (!strncmp(argv[i], "-I", 2)) ws_add_dir(&ws, argv[i] + 2);
			else if (argv[i][0] == '-') ws_add_flag(&ws, argv[i]);
			else ws_add_file(&ws, argv[i]);
		}
		const int ret = compile(&ws);
		ws_clear(&ws);
		return ret;
	}
	if (!strncmp(api, "again:", 6))
	{
		/* again:FIRST:SECOND -- one workspace used twice; only the second use is reported */
		char first[16] = "", second[16] = "", out[1024];
		if (sscanf(api, "again:%15[a-z]:%15s", first, second) != 2) sscanf(api, "again::%15s", second);
		workspace ws = ws_parse_args(argc, argv);
		snprintf(out, sizeof out, "%s", ws_get_output(&ws) ? ws_get_output(&ws) : "");
		if (first[0])
		{
			int dummy = 0;
			char other[1024];
			snprintf(other, sizeof other, "%.1000s.1", out);
			ws_set_output(&ws, other);
			use_workspace(&ws, first, &dummy);
			sim_restart();
			ws_set_output(&ws, out);
		}
		int ret = 0;
		use_workspace(&ws, second, &ret);
		ws_clear(&ws);
		return ret;
	}
	if (!strcmp(api, "ws_repeat"))
	{
		/* one workspace, compiled to every target in turn; returns the first failure */
		workspace ws = ws_parse_args(argc, argv);
		int ret = compile_to_vm(&ws);
		if (!ret) { ws_set_output(&ws, "again.ll"); ret = compile_to_llvm(&ws); }
		if (!ret) { ws_set_output(&ws, "again.s"); ret = compile_to_mips(&ws); }
		ws_clear(&ws);
		return ret;
	}
	if (!strcmp(api, "macro"))
	{
		char *text = auto_macro(argc, argv);
		const int ret = text == NULL;
		sim_take_text(text);
		sim_free(text);
		return ret;
	}
	if (!strcmp(api, "macro_file"))
	{
		workspace ws = ws_parse_args(argc, argv);
		const int ret = macro_to_file(&ws, ws_get_output(&ws));
		ws_clear(&ws);
		return ret;
	}
	if (!strcmp(api, "auto_macro_file"))
	{
		/* the output follows -o here too, so that every door is described by one command line */
		const char *path = "";
		for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "-o")) path = argv[i + 1];
		return auto_macro_to_file(argc, argv, path);
	}
	sim_note("unknown api %s\n", api);
	return -77;
}
