"""second batch of behaviour-preserving edits (see refactors.py)"""
S = "CMakePasm/source/"
def add(ref):
    # ---- nodes
    ref("short-form-helper",
     (S+"node.cc", """    int new_mode = mode;
    if (((val & ~0xFF) == 0 && has_uninitialized == false) || code == -1)
    {
        switch (mode)
        {
        case r:     /* relative             */
        case A:     /* Accumulator          */
        case I:     /* immediate            */
        case i:     /* implied              */
        case zp:    /* zero page            */
        case zpi:   /* zero page indirect   */
        case zpx:   /* zero page x          */
        case zpy:   /* zero page y          */
        case izx:   /* zero page indirect x */
        case izy:   /* zero page indirect y */
            break;

        case a:     /* absolute             */
            new_mode = zp;
            break;

        case aix:   /* absolute indirect x  */
            new_mode = izx;
            break;

        case ax:    /* absolute x           */
            new_mode = zpx;
            break;

        case ay:    /* absolute y           */
            new_mode = zpy;
            break;

        case ind:   /* absolute indirect    */
            new_mode = zpi;
            break;

        default:
            break;
        }
    }
    if (new_mode != mode)
    {
        const int temp_code = get_op_code(op, new_mode);
        if (temp_code != -1)
        {
            p->opcode.mode = new_mode;
            code = temp_code;
        }
    }

    for (index = 0; index < number_of_ops; index++)
    {
        if (p->op[index])
            preview_node(p->op[index]);
    }
""", """    const bool fits = val >= 0 && val <= 0xFF && !has_uninitialized;
    if (fits || code == -1)
    {
        const int new_mode = short_form(mode);
        const int short_code = new_mode == mode ? -1 : get_op_code(op, new_mode);
        if (short_code != -1)
        {
            code = short_code;
            p->opcode.mode = new_mode;
        }
    }

    index = 0;
    while (index < number_of_ops)
    {
        const parse_node_ptr operand = p->op[index++];
        if (operand != nullptr)
            preview_node(operand);
    }
"""), (S+"node.cc", """parse_node_ptr opcode_node(const int op, int mode, const int number_of_ops, ...)
{
    va_list ap;
""", """static int short_form(const int mode)
{
    static const int forms[][2] =
    {
        { a, zp }, { aix, izx }, { ax, zpx }, { ay, zpy }, { ind, zpi }
    };
    for (const auto& form : forms)
    {
        if (form[0] == mode)
            return form[1];
    }
    return mode;
}

parse_node_ptr opcode_node(const int op, int mode, const int number_of_ops, ...)
{
    va_list ap;
"""))
    ref("node-allocation",
     (S+"node.cc", """    memset(p, 0, size);

    if (current_node != nullptr)
    {
        p->prev = current_node;
        current_node->next = p;
    }
    current_node = p;
    p->number_of_ops = number_of_ops;
    p->allocated = true;
    if (number_of_ops > 0)
    {
        size = number_of_ops * sizeof(parse_node_ptr);
        if ((p->op = static_cast<parse_node**>(MALLOC(size))) == nullptr)
        {
            error(error_out_of_memory);
            exit(-1);  // NOLINT(concurrency-mt-unsafe)
        }
        memset(p->op, 0, size);
    }
    if (head_node == nullptr)
    {
        head_node = p;
    }
    return p;
""", """    memset(p, 0, size);
    p->allocated = true;
    p->number_of_ops = number_of_ops;
    if (number_of_ops > 0)
    {
        p->op = static_cast<parse_node**>(MALLOC(number_of_ops * sizeof(parse_node_ptr)));
        if (p->op == nullptr)
        {
            error(error_out_of_memory);
            exit(-1);  // NOLINT(concurrency-mt-unsafe)
        }
        for (int index = 0; index < number_of_ops; index++)
            p->op[index] = nullptr;
    }
    append_node(p);
    return p;
"""), (S+"node.cc", """/// <summary>
/// Allocates the node.
/// </summary>
""", """static void append_node(const parse_node_ptr p)
{
    p->prev = current_node;
    if (p->prev != nullptr)
        p->prev->next = p;
    if (head_node == nullptr)
        head_node = p;
    current_node = p;
}

/// <summary>
/// Allocates the node.
/// </summary>
"""))
    ref("string-node",
     (S+"node.cc", """    p->str.len = static_cast<int>(strlen(str));
    if (*str == '\\'' || *str == '"')
    {
        str[p->str.len - 1] = 0;
        str++;
    }

    /* copy information */
    if (p->str.value)
        FREE(p->str.value);

    p->str.value = sanitize_string(str);
""", """    const bool quoted = str[0] == '"' || str[0] == '\\'';
    if (quoted)
    {
        str[strlen(str) - 1] = 0;
        str = str + 1;
    }

    /* copy information */
    p->str.value = sanitize_string(str);
"""), (S+"node.cc", """    switch (p->type)
    {
    case type_macro_id:
    case type_id:
        if (p->id.name != nullptr && is_name_valid(p->id.name))
        {
            FREE(p->id.name);
            p->id.name = nullptr;
        }
        break;

    case type_str:
        FREE(p->str.value);
        p->str.value = nullptr;
        break;

    case type_head_node:
    case type_con:
    case type_label:
    case type_macro_ex:
    case type_opr:
    case type_op_code:
    case type_data:
    case type_unknown:
    case type_print:
    case type_last:
    default:  // NOLINT(clang-diagnostic-covered-switch-default)
        break;

    }
    if (p->number_of_ops > 0 && p->op)
    {
        FREE(p->op);
        p->op = nullptr;
        p->number_of_ops = 0;
    }
    p->allocated = false;
    FREE(p);
""", """    if (p->type == type_str)
        FREE(p->str.value);
    else if (p->type == type_id || p->type == type_macro_id)
    {
        if (p->id.name != nullptr && is_name_valid(p->id.name))
            FREE(p->id.name);
    }
    if (p->op != nullptr && p->number_of_ops > 0)
        FREE(p->op);
    FREE(p);
"""))
    ref("list-row-helpers",
     (S+"node.cc", """            col++;
            sprintf(current_ptr, " $%02X", *str & 0xFF);
            current_ptr += strlen(current_ptr);
            str++;
            bytes++;
""", """            current_ptr = append_hex(current_ptr, *str++ & 0xFF);
            col++;
            bytes++;
"""), (S+"node.cc", """                len = static_cast<int>(strlen(current_buffer));
                while (len++ < SRC_LST_INDENT)
                {
                    *current_ptr++ = ' ';
                }
                *current_ptr = 0;
                sprintf(current_ptr, ".db ");
                current_ptr += strlen(current_ptr);
                for (len = 0; len < col; len++)
                {
                    if (len > 0)
                    {
                        sprintf(current_ptr, ", ");
                        current_ptr += strlen(current_ptr);
                    }
                    if (isprint(string_start[len]))
                    {
                        sprintf(current_ptr, "'%c'", string_start[len]);
                    }
                    else
                    {
                        sprintf(current_ptr, "$%02X", string_start[len] & 0xFF);
                    }
                    current_ptr += strlen(current_ptr);
                }

                if (add_list""", """                current_ptr = pad_row(current_buffer);
                current_ptr += sprintf(current_ptr, ".db ");
                for (len = 0; len < col; len++)
                {
                    if (len > 0)
                        current_ptr += sprintf(current_ptr, ", ");
                    current_ptr += sprintf(current_ptr, isprint(string_start[len]) ? "'%c'" : "$%02X", string_start[len] & 0xFF);
                }

                if (add_list"""), (S+"node.cc", """        len = static_cast<int>(strlen(current_buffer));
        while (len++ < SRC_LST_INDENT)
        {
            *current_ptr++ = ' ';
        }
        sprintf(current_ptr, ".db ");
        current_ptr += strlen(current_ptr);
        sprintf(current_ptr, "$%02X", lo);
        current_ptr += strlen(current_ptr);
        if (two_bytes)
        {
            sprintf(current_ptr, ", $%02X", hi);
            // ReSharper disable once CppAssignedValueIsNeverUsed
            current_ptr += strlen(current_ptr);
        }
""", """        current_ptr = pad_row(current_buffer);
        if (two_bytes)
            sprintf(current_ptr, ".db $%02X, $%02X", lo, hi);
        else
            sprintf(current_ptr, ".db $%02X", lo);
"""), (S+"node.cc", """// This should only be called on the FinalPass
// when all symbols/macros are resolved
int generate_list_node""", """// This should only be called on the FinalPass
// when all symbols/macros are resolved
static char* append_hex(char* end, const int value)
{
    return end + sprintf(end, " $%02X", value);
}

static char* pad_row(char* row)
{
    size_t length = strlen(row);
    for (; length < SRC_LST_INDENT; length++)
        row[length] = ' ';
    row[length] = 0;
    return row + length;
}

int generate_list_node"""))
    # ---- strings and stacks
    ref("escape-table",
     (S+"str.cc", """            case 'a':
                esc_char = '\\a';
                break;

            case 'b':
                esc_char = '\\b';
                break;

            case 'f':
                esc_char = '\\f';
                break;

            case 'v':
                esc_char = '\\v';
                break;

            case 'r':
                esc_char = '\\r';
                break;

            case 'n':
                esc_char = '\\n';
                break;

            case 't':
                esc_char = '\\t';
                break;
""", """            case 'a':
            case 'b':
            case 'f':
            case 'v':
            case 'r':
            case 'n':
            case 't':
                esc_char = control_character(tolower(*str));
                break;
"""), (S+"str.cc", """                    char temp[3] = { 0 };
                    temp[0] = *str;
                    temp[1] = *(str + 1);
                    *tmp_str++ = static_cast<char>((int)strtol(temp, NULL, 16));
                    str += 2;
""", """                    const char digits[3] = { str[0], str[1], 0 };
                    const long value = strtol(digits, NULL, 16);
                    *tmp_str = static_cast<char>(value);
                    tmp_str++;
                    str += 2;
"""), (S+"str.cc", """    const int len = static_cast<int>(strlen(str)) + 1;

    char* out_str""", """    const size_t len = 1 + strlen(str);

    char* out_str"""), (S+"str.cc", """char* sanitize_string(""", """static unsigned char control_character(const int letter)
{
    const char letters[] = "abfvrnt";
    const char values[] = "\\a\\b\\f\\v\\r\\n\\t";
    int index = 0;
    while (letters[index] != letter)
        index++;
    return values[index];
}

char* sanitize_string("""))
    ref("stack-growth",
     (S+"stacks.cc", """        if (stack_instance->stack_size == 0)
        {
            stack_instance->stack_size += clump_size;
            void* tmp = MALLOC((static_cast<size_t>(stack_instance->stack_size) * stack_instance->item_size));
            if (tmp == NULL)
            {
                error2(error_out_of_memory, "Can't expand stack.");
                exit(-1);  // NOLINT(concurrency-mt-unsafe)
            }
            stack_instance->item_array = tmp;
        }
        else
        {
            stack_instance->stack_size += clump_size;
            void* tmp = REALLOC(stack_instance->item_array, (static_cast<size_t>(stack_instance->stack_size) * stack_instance->item_size));
            if (tmp == NULL)
            {
                error2(error_out_of_memory, "Can't expand stack.");
                exit(-1);  // NOLINT(concurrency-mt-unsafe)
            }
            stack_instance->item_array = tmp;
        }
""", """        const size_t size = (static_cast<size_t>(stack_instance->stack_size) + clump_size) * stack_instance->item_size;
        void* tmp = stack_instance->item_array == NULL ? MALLOC(size) : REALLOC(stack_instance->item_array, size);
        if (tmp == NULL)
        {
            error2(error_out_of_memory, "Can't expand stack.");
            exit(-1);  // NOLINT(concurrency-mt-unsafe)
        }
        stack_instance->item_array = tmp;
        stack_instance->stack_size += clump_size;
"""), (S+"stacks.cc", """    unsigned char* item_ptr = static_cast<unsigned char*>(stack_instance->item_array);
    // item_ptr += (size_t)(stack_instance->index + 1) * stack_instance->item_size;
    item_ptr += (static_cast<size_t>(stack_instance->index) + 1) * stack_instance->item_size;
    memcpy(item_ptr, value, stack_instance->item_size);
    return ++(stack_instance->index);
""", """    stack_instance->index++;
    memcpy(item_at(stack_instance, stack_instance->index), value, stack_instance->item_size);
    return stack_instance->index;
"""), (S+"stacks.cc", """    while (stack_instance->index >= 0)
    {
        pop(stack_instance);
    }
""", """    stack_instance->index = -1;
"""), (S+"stacks.cc", """    if (stack_instance->index >= 0)
    {
        void* item_ptr = item_at(stack_instance, stack_instance->index);
        stack_instance->index--;
        return item_ptr;
    }
    return NULL;
""", """    if (stack_instance->index < 0)
        return NULL;
    return item_at(stack_instance, stack_instance->index--);
"""))
    # ---- listing
    ref("list-tail",
     (S+"genlist.cc", """    list_table_ptr tmp_ptr = list_head;

    if (list_head == nullptr)
    {
        list_head = var_ptr;
        return var_ptr;
    }

    while (tmp_ptr->next != nullptr)
        tmp_ptr = tmp_ptr->next;

    tmp_ptr->next = var_ptr;

    return var_ptr;
""", """    list_table_ptr* link = &list_head;
    while (*link != nullptr)
        link = &(*link)->next;
    *link = var_ptr;
    return var_ptr;
"""), (S+"genlist.cc", """    // yylineno seems to be 1 off.
    --line;

""", ""), (S+"genlist.cc", """    var_ptr->line = line + 1;
""", """    var_ptr->line = line;
"""), (S+"genlist.cc", """        if (source_list->displayed == 0)
        {
            if (state)
            {
                fprintf(list_file, source_indent_format, list_node->output, source_list->line_content);
            }
            source_list->displayed++;
        }
        else
        {
            if (state)
            {
                fprintf(list_file, source_indent_format, list_node->output, "\\n");
            }
        }
""", """        print_row(list_file, state, list_node->output, source_list);
"""), (S+"genlist.cc", """void generate_list_file(FILE* list_file)
{
""", """static void print_row(FILE* list_file, const int state, const char* output, file_line_node* source)
{
    const bool seen = source->displayed != 0;
    if (state)
        fprintf(list_file, source_indent_format, output, seen ? "\\n" : source->line_content);
    if (!seen)
        source->displayed++;
}

void generate_list_file(FILE* list_file)
{
"""), (S+"genlist.cc", """            internal_buffer[0] = 0;
            sprintf(internal_buffer, source_indent_format, "","");
            fputs(internal_buffer, list_file);
            if (source_list->displayed == 0)
            {
                if (state)
                {
                    fprintf(list_file, "%s", source_list->line_content);
                }
                source_list->displayed++;
            }
            else
            {
                if (state)
                {
                    fputs("\\n", list_file);
                }
            }
""", """            if (!state)
                fprintf(list_file, source_indent_format, "", "");
            print_row(list_file, state, "", source_list);
"""))
    # ---- options
    text = []
    ref("option-test",
     *[(S+"parseargs.cc", 'if (stricmp(argv[arg_index], "-%s") == 0 || stricmp(argv[arg_index], "/%s") == 0)\n        {' % (o, o), 'if (is_option(argv[arg_index], "%s"))\n        {' % o) for o in ("o", "s", "dir", "log", "l", "c64", "v", "65c02", "6502", "i", "nowarn", "d")],
     (S+"parseargs.cc", """int parse_arguments(const int argc, char* argv[])
{
""", """static bool is_option(const char* argument, const char* name)
{
    if (argument[0] != '-' && argument[0] != '/')
        return false;
    return stricmp(argument + 1, name) == 0;
}

int parse_arguments(const int argc, char* argv[])
{
"""))
    # ---- symbols
    ref("scoped-name-helper",
     (S+"sym.cc", """        const int len = static_cast<int>(strlen(current_scope)) + static_cast<int>(strlen(name)) + 2;
        char* temp_name = static_cast<char*>(MALLOC(len));
        if (temp_name == NULL)
        {
            error(error_out_of_memory);
            exit(-1);
        }
        sprintf(temp_name, "%s.%s", current_scope, name);
""", """        char* temp_name = scoped_name(current_scope, name);
"""), (S+"sym.cc", """    if (sym.scope)
    {
        len = strlen(sym.name) + strlen(sym.scope) + 2;
        sym.fullname = static_cast<char*>(MALLOC(len));
        if (sym.fullname == NULL)
        {
            error(error_out_of_memory);
            exit(-1);
        }
        sprintf(sym.fullname, "%s.%s", sym.scope, sym.name);
    }
    else
    {
        sym.fullname = (char*)STRDUP(sym.name);
        if (sym.fullname == NULL)
        {
            error(error_out_of_memory);
            exit(-1);
        }
    }

    if (sym.name[0] == '@')
    {
        sym.is_local = true;
    }
""", """    sym.fullname = scoped_name(sym.scope, sym.name);
    sym.is_local = sym.is_local || sym.name[0] == '@';
"""), (S+"sym.cc", """    sym.name = format_local_plus_minus_sym(name, last_label);

    if (sym.scope != nullptr)
    {
        sym.fullname = static_cast<char*>(MALLOC(strlen(sym.scope) + strlen(sym.name) + 2));
        sprintf(sym.fullname, "%s.%s", sym.scope, sym.name);
    }
    else
        sym.fullname = (char*)STRDUP(sym.name);
""", """    sym.name = format_local_plus_minus_sym(name, last_label);
    sym.fullname = scoped_name(sym.scope, sym.name);
"""), (S+"sym.cc", """symbol_table_ptr add_plus_minus_sym(char* name)
{
""", """static char* scoped_name(const char* scope, const char* name)
{
    const size_t start = scope != NULL ? strlen(scope) + 1 : 0;
    char* result = static_cast<char*>(MALLOC(start + strlen(name) + 1));
    if (result == NULL)
    {
        error(error_out_of_memory);
        exit(-1);
    }
    if (scope != NULL)
    {
        strcpy(result, scope);
        result[start - 1] = '.';
    }
    strcpy(result + start, name);
    return result;
}

symbol_table_ptr add_plus_minus_sym(char* name)
{
"""))
    ref("sanitize-strrchr",
     (S+"sym.cc", """    if (strstr(symbol->name, ".") == NULL)
        return;

    int len = static_cast<int>(strlen(symbol->name));
    while (symbol->name[len] != '.')
        len--;
    symbol->name[len] = 0;
    char* temp_section = (char*)STRDUP(symbol->name);
    char* temp_name = (char*)STRDUP(&symbol->name[len + 1]);
""", """    char* dot = strrchr(symbol->name, '.');
    if (dot == NULL)
        return;

    int len;
    *dot++ = 0;
    char* temp_section = (char*)STRDUP(symbol->name);
    char* temp_name = (char*)STRDUP(dot);
"""), (S+"sym.cc", """    const int new_len = strlen(label) + 1 + strlen(name) + 1 + 2;  // NOLINT(bugprone-narrowing-conversions, cppcoreguidelines-narrowing-conversions)
    char* new_name = static_cast<char*>(MALLOC(new_len));
    if (new_name)
    {
        sprintf(new_name, "%s__%s", label, name);
    }
    name = (char*)STRDUP(new_name);
    FREE(new_name);
    return name;
""", """    const size_t label_len = strlen(label);
    char* new_name = static_cast<char*>(MALLOC(label_len + strlen(name) + 3));
    if (new_name == NULL)
    {
        error(error_out_of_memory);
        exit(-1);
    }
    memcpy(new_name, label, label_len);
    strcpy(new_name + label_len, "__");
    strcat(new_name, name);
    return new_name;
"""))
    ref("macro-stack-rewrite",
     (S+"sym.cc", """    if (max_macro < 0)
    {
        macro_stack_param_entry.num_nodes = 0;
    }
    else
    {
        macro_stack_param_entry.num_nodes = max_macro + 1;
        macro_stack_param_entry.values = static_cast<int*>(MALLOC(((unsigned long long)max_macro + 1) * sizeof(long)));

        macro_stack_param_entry.values[0] = 0;
        for (int index = 1; index <= max_macro; index++)
        {
            // ReSharper disable once CppLocalVariableMayBeConst
            symbol_table_ptr tmp_ptr = look_up_macro_param(index);
            if (tmp_ptr != NULL)
            {
                macro_stack_param_entry.values[index] = tmp_ptr->value;
            }
            else
            {
                macro_stack_param_entry.values[index] = 0;
                error(error_macro_parameter_not_found);
            }
        }
    }
""", """    if (max_macro >= 0)
    {
        int* values = static_cast<int*>(MALLOC((static_cast<size_t>(max_macro) + 1) * sizeof(int)));
        values[0] = 0;
        for (int index = max_macro; index > 0; index--)
        {
            const symbol_table_ptr parameter = look_up_macro_param(index);
            values[index] = parameter != NULL ? parameter->value : 0;
            if (parameter == NULL)
                error(error_macro_parameter_not_found);
        }
        macro_stack_param_entry.values = values;
        macro_stack_param_entry.num_nodes = max_macro + 1;
    }
"""))
    # ---- expansion
    ref("macro-call-split",
     (S+"expand.cc", """    macro_dict_entry* macro_dict_entry = create_macro_entry(p->macro.name);
    push_macro_params();

    // the arguments are evaluated with the parameters of the caller
    const int caller_parameters = macro_parameter_index;
    expansion_type = macro_parameter;

    if (p->macro.macro_params != nullptr)
        expand_node(static_cast<parse_node_ptr>(p->macro.macro_params));
    set_macro_parameters();

    char* temp = last_label;
    snprintf(internal_buffer, max_line_len, "%s::%.4X", p->macro.name, macro_dict_entry->times_executed);
    last_label = (char*) STRDUP(internal_buffer);
""", """    struct macro_dict_entry* call = create_macro_entry(p->macro.name);
    const int caller_parameters = macro_parameter_index;

    push_macro_params();
    bind_arguments(static_cast<parse_node_ptr>(p->macro.macro_params));

    char* temp = last_label;
    snprintf(internal_buffer, max_line_len, "%s::%.4X", p->macro.name, call->times_executed);
    last_label = (char*) STRDUP(internal_buffer);
"""), (S+"expand.cc", """    macro_dict_entry->times_executed++;

    last_label = temp;
    macro_parameter_index""", """    call->times_executed += 1;

    last_label = temp;
    macro_parameter_index"""), (S+"expand.cc", """/// <summary>
/// Operator Macro Expansion (macro call)
/// </summary>
""", """// the arguments are evaluated with the parameters of the caller
static void bind_arguments(const parse_node_ptr arguments)
{
    expansion_type = macro_parameter;
    if (arguments != nullptr)
        expand_node(arguments);
    set_macro_parameters();
}

/// <summary>
/// Operator Macro Expansion (macro call)
/// </summary>
"""), (S+"expand.cc", """    const int count = static_cast<int>(macro_arguments->instance->index) + 1;
    while (macro_parameter_index < count)
    {
        if (++macro_parameter_index > max_macro_param)
            max_macro_param = macro_parameter_index;

        sprintf(""", """    for (int index = 0; index <= static_cast<int>(macro_arguments->instance->index); index++)
    {
        macro_parameter_index = index + 1;
        if (max_macro_param < macro_parameter_index)
            max_macro_param = macro_parameter_index;

        sprintf("""))
    ref("loops-rewritten",
     (S+"expand.cc", """    while (expand_node(p->op[0]))
    {
        expand_node(p->op[1]);

        if (program_counter > max_address)
        {
            error(error_infinite_loop_detected);
            return 0;
        }
    }
    return 0;
""", """    for (;;)
    {
        const int condition = expand_node(p->op[0]);
        if (condition == 0)
            break;
        if (!expand_loop_body(p->op[1]))
            break;
    }
    return 0;
"""), (S+"expand.cc", """    do
    {
        expand_node(p->op[0]);

        if (program_counter > max_address)
        {
            error(error_infinite_loop_detected);
            return 0;
        }
    } while (expand_node(p->op[1]) == 0);
    return 0;
""", """    while (expand_loop_body(p->op[0]))
    {
        if (expand_node(p->op[1]) != 0)
            break;
    }
    return 0;
"""), (S+"expand.cc", """    do
    {
        expand_node(p->op[0]);
        if (program_counter > max_address)
        {
            error(error_infinite_loop_detected);
            return 0;
        }
    } while (expand_node(p->op[1]));
    return 0;
""", """    while (expand_loop_body(p->op[0]) && expand_node(p->op[1]) != 0)
        ;
    return 0;
"""), (S+"expand.cc", """        do
        {
            if (step_val > 0 && sym->value > end_value)
                break;
            if (step_val < 0 && sym->value < end_value)
                break;

            expand_node(p->op[2]);

            if (program_counter > max_address)
            {
                error(error_infinite_loop_detected);
                return 0;
            }
            const long long next_value = static_cast<long long>(sym->value) + step_val;
            if (next_value > INT_MAX || next_value < INT_MIN)
                break;
            if (set_symbol_value(sym, static_cast<int>(next_value)) == nullptr)
                return 0;
        } while (true);
""", """        while (step_val > 0 ? sym->value <= end_value : sym->value >= end_value)
        {
            if (!expand_loop_body(p->op[2]))
                return 0;
            const long long next_value = static_cast<long long>(sym->value) + step_val;
            if (next_value != static_cast<int>(next_value))
                break;
            if (set_symbol_value(sym, static_cast<int>(next_value)) == nullptr)
                return 0;
        }
"""), (S+"expand.cc", """/// <summary>
/// Operator While
/// </summary>
""", """static bool expand_loop_body(const parse_node_ptr body)
{
    expand_node(body);
    const bool ok = program_counter <= max_address;
    if (!ok)
        error(error_infinite_loop_detected);
    return ok;
}

/// <summary>
/// Operator While
/// </summary>
"""))
    ref("section-rewrite",
     (S+"expand.cc", """    long int index = strlen(current_scope);
    if (enclosing_scopes != nullptr && enclosing_scopes->instance->index >= 0)
    {
        const auto enclosing = static_cast<long int>(*static_cast<size_t*>(enclosing_scopes->pop(enclosing_scopes->instance)));
        index = enclosing > 0 && enclosing < index ? enclosing : -1;
    }
    else
    {
        while (index >= 0 && current_scope[index] != '.')
            index--;
    }
    if (index >= 0)
        current_scope[index] = 0;
    else
    {
        FREE(current_scope);
        current_scope = nullptr;
    }
    return 0;
""", """    const long int length = strlen(current_scope);
    long int kept = -1;
    if (enclosing_scopes != nullptr && enclosing_scopes->instance->index >= 0)
    {
        const auto enclosing = static_cast<long int>(*static_cast<size_t*>(enclosing_scopes->pop(enclosing_scopes->instance)));
        if (enclosing > 0 && enclosing < length)
            kept = enclosing;
    }
    else
    {
        const char* dot = strrchr(current_scope, '.');
        if (dot != nullptr)
            kept = dot - current_scope;
    }
    if (kept < 0)
    {
        FREE(current_scope);
        current_scope = nullptr;
        return 0;
    }
    current_scope[kept] = 0;
    return 0;
"""), (S+"expand.cc", """    const size_t enclosing = current_scope != nullptr ? strlen(current_scope) : 0;
    if (enclosing_scopes""", """    size_t enclosing = 0;
    if (current_scope)
        while (current_scope[enclosing] != 0)
            enclosing++;
    if (enclosing_scopes"""), (S+"expand.cc", """        current_scope = (char*) STRDUP(name);  // NOLINT(clang-diagnostic-incompatible-pointer-types-discards-qualifiers)
        if (current_scope == nullptr)
        {
            error(error_out_of_memory);
            return 0;
        }
""", """        char* scope = (char*) STRDUP(name);  // NOLINT(clang-diagnostic-incompatible-pointer-types-discards-qualifiers)
        if (scope == nullptr)
        {
            error(error_out_of_memory);
            return 0;
        }
        current_scope = scope;
"""))
    ref("reg-loop-rewrite",
     (S+"expand.cc", """    if (end != 0 && !(increment_flag > 0 && end == 255))
    {
        parse_node_ptr cmp_node;
        if (increment_flag > 0 && end < 255)
        {
            cmp_node = opcode_node(cmp_op, I, 1, constant_node(end + 1, false));
        }
        else
        {
            cmp_node = opcode_node(cmp_op, I, 1, constant_node(end, false));
        }
        expand_node(cmp_node);
    }

    // figure out branch condition
    if (increment_flag > 0)
    {
        if (end < 255)
        {
            loop_branch = opcode_node(_bcc, r, 1, 
                constant_node(start_loop_program_counter, false));
        }
        else
        {
            loop_branch = opcode_node(_bne, r, 1, 
                constant_node(start_loop_program_counter, false));
        }
    }
    else if (increment_flag < 0)
    {
        loop_branch = opcode_node(_bcs, r, 1, constant_node(start_loop_program_counter, 0));
    }
    expand_node(loop_branch);
""", """    const bool up = increment_flag > 0;
    const bool wraps = up && end >= 255;
    if (end != 0 && !wraps)
    {
        const int limit = up ? end + 1 : end;
        expand_node(opcode_node(cmp_op, I, 1, constant_node(limit, false)));
    }

    // figure out branch condition
    const int branch = wraps ? _bne : up ? _bcc : _bcs;
    loop_branch = opcode_node(branch, r, 1, constant_node(start_loop_program_counter, false));
    expand_node(loop_branch);
"""), (S+"expand.cc", """    // range check
    if (start < 0 || start > 255)
    {
        error(error_value_out_of_range);
        return 0;
    }
""", """    // range check
    if ((start & ~0xFF) != 0)
    {
        error(error_value_out_of_range);
        return 0;
    }
"""))
    ref("load-rewrite",
     (S+"expand.cc", """    size_t pos = ftell(fd);

    while (!feof(fd) && len - pos > 0)
    {
        pos = ftell(fd);
        if (len - pos > 1)
        {
            const unsigned char a = fgetc(fd);
            const unsigned char b = fgetc(fd);

            data_size = 2;
            expand_node(
                data_node(data_size, 
                operator_node(EXPRLIST, 1,
                    constant_node((a | b << 8) & 0xFFFF, false))));
            continue;
        }
        if (len - pos > 0)
        {
            data_size = 1;
            const unsigned char ch = fgetc(fd);
            expand_node(
                data_node(data_size, 
                    operator_node(EXPRLIST, 1, 
                        constant_node(ch, false))));
        }
        pos = ftell(fd);
    }
    fclose(fd);
    return 1;
""", """    size_t pos = ftell(fd);

    while (!feof(fd) && pos < len)
    {
        const bool pair = len - pos > 1;
        int value = static_cast<unsigned char>(fgetc(fd));
        if (pair)
            value += static_cast<unsigned char>(fgetc(fd)) * 256;
        emit_loaded(value, pair ? 2 : 1);
        pos = ftell(fd);
    }
    fclose(fd);
    return 1;
"""), (S+"expand.cc", """//
// Load node
//
""", """static void emit_loaded(const int value, const int size)
{
    data_size = size;
    const parse_node_ptr list = operator_node(EXPRLIST, 1, constant_node(value, false));
    expand_node(data_node(size, list));
}

//
// Load node
//
"""))
    # ---- scanner and grammar
    ref("scanner-keep-token",
     (S+"pasm.l", """#define SV_TOK              { if (last_token != nullptr) FREE(last_token); last_token = (char*)STRDUP(yytext); }
""", """static void keep_token(const char* text)
{
    char* copy = (char*)STRDUP(text);
    if (last_token != nullptr)
        FREE(last_token);
    last_token = copy;
}
#define SV_TOK              keep_token(yytext);
"""), (S+"pasm.l", """".MACRO"                    { P_TOK("MACRO")        SV_TOK in_macro_definition++; return MACRO;     }
".MAC"                      { P_TOK("MACRO")        SV_TOK in_macro_definition++; return MACRO;     }
""", """".MAC"|".MACRO"             { P_TOK("MACRO")        SV_TOK in_macro_definition += 1; return MACRO;  }
"""), (S+"pasm.l", """".DB"                       { P_TOK("BYTE")         SV_TOK return BYTE;         }
""", ""), (S+"pasm.l", """".BYTE"                     { P_TOK""", """".BYTE"|".DB"               { P_TOK"""))
    ref("scanner-ifdef-helper",
     (S+"pasm.l", """                                P_TOK("IF_DEF")
                                SV_TOK
                                int last_if = 0;
                                ifdef_stack->push(ifdef_stack->instance, &last_if);

                                char* p = yytext;
                                SKIP_WHITE(p)

                                symbol_table_ptr sym = look_up_symbol(p); 
                                if (sym == NULL)
                                {
                                    BEGIN(IF_DEF);
                                }
""", """                                P_TOK("IF_DEF")
                                SV_TOK
                                if (!open_ifdef(yytext)) BEGIN(IF_DEF);
"""), (S+"pasm.l", """                                P_TOK("IF_DEF")
                                SV_TOK
                                int last_if = 0;
                                ifdef_stack->push(ifdef_stack->instance, &last_if);

                                char* p = yytext;
                                SKIP_WHITE(p)

                                symbol_table_ptr sym = look_up_symbol(p); 
                                if (sym != NULL)
                                {
                                    BEGIN(IF_DEF);
                                }
""", """                                P_TOK("IF_DEF")
                                SV_TOK
                                if (open_ifdef(yytext)) BEGIN(IF_DEF);
"""), (S+"pasm.l", """#define SKIP_WHITE(p)       { while (*p != ' ' && *p != '\\t') p += 1; while (*p == ' ' || *p == '\\t') p += 1; }     
""", """static bool open_ifdef(const char* text)
{
    const int conditional = 0;
    ifdef_stack->push(ifdef_stack->instance, &conditional);
    const char* name = text + strcspn(text, " \\t");
    name += strspn(name, " \\t");
    return look_up_symbol((char*)name) != NULL;
}
"""))
    ref("grammar-helpers",
     (S+"pasm.y", """                                            expand_node(operator_node('=', 2, label_node($2), constant_node(program_counter, true))); 
                                            expand_node($3);                
""", """                                            expand_node(define_label($2));
                                            expand_node($3);
"""), (S+"pasm.y", """                                                $$ = operator_node('=', 2, label_node($1), constant_node(program_counter, true));
                                            }
                                        }
""", """                                                $$ = define_label($1);
                                            }
                                        }
"""), (S+"pasm.y", """FOR REGX '=' subexpr TO subexpr EOL stmt_list NEXT 'X'                    { B_TOK("regloopexpr FOR REGX TO")      $$ = operator_node(REGX, 4, $4, $6, $8, constant_node(1, 0));   }
""", """FOR REGX '=' subexpr TO subexpr EOL stmt_list NEXT 'X'                    { B_TOK("regloopexpr FOR REGX TO")      $$ = reg_loop(REGX, $4, $6, $8, 1);   }
"""), (S+"pasm.y", """FOR REGY '=' subexpr DOWNTO subexpr EOL  stmt_list NEXT 'Y'               { B_TOK("regloopexpr FOR REGX DOWNTO")  $$ = operator_node(REGY, 4, $4, $6, $8, constant_node(-1,0));   }
""", """FOR REGY '=' subexpr DOWNTO subexpr EOL  stmt_list NEXT 'Y'               { B_TOK("regloopexpr FOR REGX DOWNTO")  $$ = reg_loop(REGY, $4, $6, $8, -1);   }
"""), (S+"pasm.y", """
%}
""", """
static parse_node_ptr define_label(char* name)
{
    const parse_node_ptr label = label_node(name);
    return operator_node('=', 2, label, constant_node(program_counter, true));
}

static parse_node_ptr reg_loop(const int reg, const parse_node_ptr start, const parse_node_ptr end, const parse_node_ptr body, const int direction)
{
    const parse_node_ptr step = constant_node(direction, 0);
    return operator_node(reg, 4, start, end, body, step);
}
%}
"""))
