/* Front end on texts from stdin: u32 length + bytes each; length 0xFFFFFFFF ends.
 * Answer per text: u32 verdict, line, column. verdict: 0 accepted, 1 lexer or parser error, 2 compiler error,
 * 3 anything else.  Each text is copied to a buffer of its exact size, so that reading past its end is seen by ASan. */
#include "inc/kos_instance.h"
#include "inc/kos_error.h"
#include "core/kos_compiler.h"
#include "core/kos_parser.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
/* The compiler asks its driver about modules; here every module is missing and every base global is the first one. */
int __wrap_kos_comp_import_module(void *c, const char *name, uint16_t len, int *idx) { return KOS_ERROR_EXCEPTION; }
int __wrap_kos_comp_resolve_global(void *c, int mod, const char *name, uint16_t len, KOS_COMP_WALK_GLOBALS_CALLBACK cb, void *cookie)
{ return cb(name, len, mod, 0, cookie); }
int __wrap_kos_comp_walk_globals(void *c, int mod, KOS_COMP_WALK_GLOBALS_CALLBACK cb, void *cookie) { return KOS_SUCCESS; }
int __wrap_kos_comp_check_private_global(void *c, const KOS_TOKEN *token) { return KOS_SUCCESS; }

int main(int argc, char **argv)
{
    const int compile = argc > 1 && argv[1][0] == 'c';
    unsigned n = 0;
    for (;;) {
        uint32_t len, ans[3] = { 0, 0, 0 };
        char *text;
        KOS_COMP_UNIT program;
        KOS_PARSER parser;
        KOS_AST_NODE *ast = 0;
        int error;
        if (fread(&len, 4, 1, stdin) != 1 || len == 0xFFFFFFFFu) break;
        text = (char *)malloc(len ? len : 1);
        if (len && fread(text, len, 1, stdin) != 1) return 3;
        kos_compiler_init(&program, 0);
        kos_parser_init(&parser, &program.allocator, 0, text, text + len);
        error = kos_parser_parse(&parser, &ast);
        if (error) {
            const KOS_FILE_POS pos = get_token_pos(&parser.token);
            ans[0] = error == KOS_ERROR_SCANNING_FAILED || error == KOS_ERROR_PARSE_FAILED ? 1 : 3;
            if (error == KOS_ERROR_SCANNING_FAILED) { ans[1] = parser.lexer.pos.line; ans[2] = parser.lexer.pos.column; }
            else { ans[1] = pos.line; ans[2] = pos.column; }
            if (!parser.error_str && error == KOS_ERROR_PARSE_FAILED) ans[0] = 3;
        }
        else if (compile) {
            unsigned passes = 0;
            error = kos_compiler_compile(&program, ast, &passes);
            if (error == KOS_ERROR_COMPILE_FAILED) {
                const KOS_FILE_POS pos = get_token_pos(program.error_token);
                ans[0] = program.error_str ? 2 : 3; ans[1] = pos.line; ans[2] = pos.column;
            }
            else if (error == KOS_ERROR_EXCEPTION) {
                ans[0] = 4;                           /* imported module not found */
            }
            else if (error) ans[0] = 3;
        }
        kos_parser_destroy(&parser);
        kos_compiler_destroy(&program);
        free(text);
        fwrite(ans, sizeof(ans), 1, stdout);
        if ((++n & 15) == 0) fflush(stdout);
    }
    return 0;
}
