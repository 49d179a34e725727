"""Behaviour-preserving edits: the checks have to stay quiet on every one of them. usage: refactors.py [-j N] [id ...] [-- CHECK ...]"""
import sys, os, subprocess, shutil, tempfile, concurrent.futures as cf
S = "CMakePasm/source/"
R = []
def ref(i, *edits): R.append((i, edits))

# ---- output
ref("emit-helper",
 (S+"genoutput.cc", """int write_word(FILE* file, const int word)
{
    const unsigned char hi = (word & 0xFF00) >> 8;
    const unsigned char lo = word & 0xFF;

    int bytes_written = write_byte(file, lo);
    if (bytes_written > 0)
    {
        bytes_written += write_byte(file, hi);
    }
    return bytes_written;
}
""", """int write_word(FILE* file, const int word)
{
    int bytes_written = 0;
    for (int shift = 0; shift <= 8; shift += 8)
    {
        const int n = write_byte(file, (word >> shift) & 0xFF);
        if (n <= 0)
            break;
        bytes_written += n;
    }
    return bytes_written;
}

static int count_written(const int bytes_written)
{
    total_bytes_written += bytes_written;
    return bytes_written;
}
"""),
 (S+"genoutput.cc", """        if (data_size == 1 || (data_size == 0 && !large_value))
        {
            bytes_written = write_byte(output_file, op);  // NOLINT(clang-diagnostic-implicit-int-conversion)
            total_bytes_written += (int)bytes_written;
        }
        else
        {
            bytes_written = write_word(output_file, op);
            total_bytes_written += (int)bytes_written;
        }
""", """        const bool one_byte = data_size == 1 || (data_size == 0 && !large_value);
        bytes_written = count_written(one_byte ? write_byte(output_file, op) : write_word(output_file, op));
"""))
ref("output-early-return",
 (S+"genoutput.cc", """    switch (p->type)  // NOLINT(clang-diagnostic-switch-enum)
    {
    case type_str:
        bytes_written = write_string_node(output_file, p);
        break;

    case type_op_code:
        bytes_written = write_opcode_node(output_file, p);
        break;

    default:
        bytes_written = write_data_node(output_file, p);
        break;
    }

    if (bytes_written < 0)
    {
        return 0;
    }
    return total_bytes_written - start_bytes;""", """    if (p->type == type_op_code)
        bytes_written = write_opcode_node(output_file, p);
    else if (p->type == type_str)
        bytes_written = write_string_node(output_file, p);
    else
        bytes_written = write_data_node(output_file, p);

    return bytes_written < 0 ? 0 : total_bytes_written - start_bytes;"""),
 (S+"genoutput.cc", """    while (delta + byte_delta > total_bytes_written)
    {
        const int bytes_written = write_byte(output_file, 0);
        total_bytes_written += static_cast<int>(bytes_written);
        if (bytes_written == 0)
        {
            return -1;
        }
    }
    return 0;""", """    for (int left = delta + byte_delta - total_bytes_written; left > 0; --left)
    {
        const int bytes_written = write_byte(output_file, 0);
        if (bytes_written == 0)
            return -1;
        total_bytes_written += bytes_written;
    }
    return 0;"""))
ref("branch-distance-helper",
 (S+"genoutput.cc", """int write_opcode_node(FILE* file, const parse_node_ptr p)
{""", """static bool branch_offset(const parse_node_ptr p, int& op)
{
    op -= (p->opcode.program_counter + 2);
    if (op < -128 || op > 127)
        return false;
    op &= 0xFF;
    return true;
}

int write_opcode_node(FILE* file, const parse_node_ptr p)
{"""),
 (S+"genoutput.cc", """            // make sure a branch is in range
            op -= (p->opcode.program_counter + 2);

            if (op > 127 || op < -128)
            {
                error(error_value_out_of_range);
                return 0;
            }
            op &= 0xFF;
""", """            if (!branch_offset(p, op))
            {
                error(error_value_out_of_range);
                return 0;
            }
"""))
# ---- driver
ref("assemble-split",
 (S+"pass.cc", """int assemble(void)
{
    error_count = 0;
""", """static bool last_pass_clean(const int unresolved_count)
{
    return error_count == 0 && sym_value_changed == 0 && unresolved_count == 0;
}

static int report_errors(void)
{
    if (error_count > 0)
    {
        fprintf(console_error, "%d error(s)\\n", error_count);
        return -1;
    }
    return 0;
}

static int write_symbol_file(void)
{
    sym_file = fopen(sym_file_name, "w");
    if (sym_file == nullptr)
    {
        error(error_opening_symbol_file);
        return -1;
    }

    // display the symbols
    dump_symbols(sym_file);

    fclose(sym_file);
    return 0;
}

int assemble(void)
{
    error_count = 0;
"""),
 (S+"pass.cc", """        sym_file = fopen(sym_file_name, "w");
        if (sym_file == nullptr)
        {
            error(error_opening_symbol_file);
            return -1;
        }

        // display the symbols
        dump_symbols(sym_file);

        fclose(sym_file);
""", """        if (write_symbol_file() != 0)
            return -1;
"""),
 (S+"pass.cc", """        if (error_count == 0 && sym_value_changed == 0 && unresolved_count == 0)
            clean_pass_count++;
        else
            clean_pass_count = 0;
""", """        clean_pass_count = last_pass_clean(unresolved_count) ? clean_pass_count + 1 : 0;
"""),
 (S+"pass.cc", """    if (error_count > 0)
    {
        fprintf(console_error, "%d error(s)\\n", error_count);
        return -1;
    }

    if (verbose)
        fprintf(console, "Final Pass\\n");
""", """    if (report_errors() != 0)
        return -1;

    if (verbose)
        fprintf(console, "Final Pass\\n");
"""))
ref("pass-loop-for",
 (S+"pass.cc", """    int clean_pass_count = 0;
    do
    {
""", """    bool clean = false;
    for (;;)
    {
"""),
 (S+"pass.cc", """        if (error_count == 0 && sym_value_changed == 0 && unresolved_count == 0)
            clean_pass_count++;
        else
            clean_pass_count = 0;
""", """        clean = error_count == 0 && sym_value_changed == 0 && unresolved_count == 0;
"""),
 (S+"pass.cc", "verbose && clean_pass_count == 0 && pass > 3", "verbose && !clean && pass > 3"),
 (S+"pass.cc", """        pass++;
    } while (error_count == 0 && pass < max_passes && clean_pass_count < 1);
""", """        pass++;
        if (error_count != 0 || pass >= max_passes || clean)
            break;
    }
"""))
ref("passes-extracted",
 (S+"pass.cc", """    int clean_pass_count = 0;
    do
    {
        cpu_mode = start_cpu_mode;
        allow_illegal_op_codes = start_illegal;
        ignore_warnings = start_ignore_warnings;
""", """    int clean_pass_count = 0;
    do
    {
        restore_settings(start_cpu_mode, start_illegal, start_ignore_warnings);
"""),
 (S+"pass.cc", """    cpu_mode = start_cpu_mode;
    allow_illegal_op_codes = start_illegal;
    ignore_warnings = start_ignore_warnings;

    if (output_file_name""", """    restore_settings(start_cpu_mode, start_illegal, start_ignore_warnings);

    if (output_file_name"""),
 (S+"pass.cc", """int assemble(void)
{
    error_count = 0;
""", """static void restore_settings(const decltype(cpu_mode) cpu, const decltype(allow_illegal_op_codes) illegal, const bool quiet)
{
    ignore_warnings = quiet;
    allow_illegal_op_codes = illegal;
    cpu_mode = cpu;
}

int assemble(void)
{
    error_count = 0;
"""),
 (S+"pass.cc", """    for (int in_file_index = 0; in_file_index < input_file_count; in_file_index++)
    {""", """    int in_file_index = -1;
    while (++in_file_index < input_file_count)
    {"""))
ref("reset-order",
 (S+"pass.cc", """    error_count = 0;

    last_label = nullptr;

    sym_value_changed = 0;
    unresolved_references = 0;

    // reset the Program Counter
    program_counter = program_origin_default;

    // reset End flag
    end_expansion = 0;
""", """    end_expansion = 0;
    program_counter = program_origin_default;
    unresolved_references = 0;
    sym_value_changed = 0;
    last_label = nullptr;
    error_count = 0;
"""),
 (S+"pass.cc", """    if (changed_sym_stack == nullptr)
    {
        changed_sym_stack = create_stack(sizeof(symbol_table));
    }
    else
    {
        changed_sym_stack->clear(changed_sym_stack->instance);
    }
    if (file_stack == nullptr)
    {
        file_stack = create_stack(sizeof(file_line_stack_entry));
    }
    else
    {
        file_stack->clear(file_stack->instance);
    }
    if (ifdef_stack == nullptr)
    {
        ifdef_stack = create_stack(sizeof(int));
    }
    else
    {
        ifdef_stack->clear(ifdef_stack->instance);
    }
""", """    ifdef_stack = empty_stack(ifdef_stack, sizeof(int));
    file_stack = empty_stack(file_stack, sizeof(file_line_stack_entry));
    changed_sym_stack = empty_stack(changed_sym_stack, sizeof(symbol_table));
"""),
 (S+"pass.cc", """/**
 * \\brief Reset the Lexer for each pass
 */
""", """static stack* empty_stack(stack* s, const int size)
{
    if (s == nullptr)
        return create_stack(size);
    s->clear(s->instance);
    return s;
}

/**
 * \\brief Reset the Lexer for each pass
 */
"""))
# ---- dictionary
ref("dict-unified",
 (S+"dictionary.cc", """/// <summary>
/// return the most recently inserted value""", """static unsigned long bucket_of(const dictionary_ptr d, const void* key)
{
    const unsigned int h = d->key_type == 0 ? hash_function(static_cast<const char*>(key)) : hash_pointer_function(key);
    return h % static_cast<unsigned long>(d->size);
}

static bool same_key(const dictionary_ptr d, const void* a, const void* b)
{
    if (d->key_type == 0)
        return stricmp(static_cast<const char*>(a), static_cast<const char*>(b)) == 0;
    return a == b;
}

/// <summary>
/// return the most recently inserted value"""),
 (S+"dictionary.cc", """    if (d->key_type == 0)
    {
        const unsigned long h = hash_function(static_cast<const char*>(key)) % d->size;
        for (element_ptr e = d->table[h]; e != 0; e = e->next)
        {
            if (!stricmp(static_cast<char*>(e->key), (char*)key))
            {
                /* got it */
                return e->value;
            }
        } 
    }
    else
    {
        const unsigned long h = hash_pointer_function(key) % d->size;
        for (element_ptr e = d->table[h]; e != 0; e = e->next)
        {
            if (e->key == key)
            {
                /* got it */
                return e->value;
            }
        }
    }
    return NULL;
""", """    element_ptr e = d->table[bucket_of(d, key)];
    while (e != NULL && !same_key(d, e->key, key))
        e = e->next;
    return e == NULL ? NULL : e->value;
"""),
 (S+"dictionary.cc", """    if (d->key_type == 0)
    {
        const unsigned long h = hash_function((char*)key) % d->size;

        for (element_ptr* prev = &d->table[h]; *prev != 0; prev = &(*prev)->next)
        {
            if (!stricmp(static_cast<char*>((*prev)->key), (char*)key))
            {
                const element_ptr e = *prev;
                *prev = e->next;

                // ReSharper disable once CppPointerConversionDropsQualifiers
                char* p = static_cast<char*>(e->key);  // NOLINT(clang-diagnostic-cast-qual)
                // ReSharper disable once CppPointerConversionDropsQualifiers
                FREE(p);  // NOLINT(clang-diagnostic-incompatible-pointer-types-discards-qualifiers)
                FREE(e->value);
                FREE(e);
                (d->number_elements)--;
                return;
            }
        }
    }
    else
    {
        const unsigned long h = hash_pointer_function(key) % d->size;

        for (element_ptr* prev = &d->table[h]; *prev != 0; prev = &(*prev)->next)
        {
            if ((*prev)->key == key)
            {
                const element_ptr e = *prev;
                *prev = e->next;
                FREE(e->value);
                FREE(e);
                d->number_elements--;
                return;
            }
        }
    }
""", """    element_ptr* link = &d->table[bucket_of(d, key)];
    for (; *link != NULL; link = &(*link)->next)
    {
        const element_ptr e = *link;
        if (!same_key(d, e->key, key))
            continue;
        *link = e->next;
        d->number_elements -= 1;
        if (d->key_type == 0)
            FREE(e->key);
        FREE(e->value);
        FREE(e);
        break;
    }
"""))
ref("dict-insert-tail",
 (S+"dictionary.cc", """    if (d->key_type == 0)
    {
        const unsigned long h = hash_function(static_cast<const char*>(e->key)) % d->size;
        e->next = d->table[h];
        if (e->next)
            d->collisions++;

        d->table[h] = e;
        d->number_elements++;
    }
    else
    {
        const unsigned long h = hash_pointer_function(e->key) % d->size;
        e->next = d->table[h];
        if (e->next)
            d->collisions++;

        d->table[h] = e;
        d->number_elements++;
    }
    /* grow""", """    const unsigned int code = d->key_type == 0 ? hash_function(static_cast<const char*>(e->key)) : hash_pointer_function(e->key);
    element_ptr* head = d->table + code % static_cast<unsigned long>(d->size);
    d->number_elements++;
    if (*head != NULL)
        d->collisions++;
    e->next = *head;
    *head = e;
    /* grow"""))
ref("hash-while",
 (S+"hash.cc", """    for (unsigned long index = 0; key[index]; ++index)
    {
        hash += index % 2 ? tolower(key[index]) : toupper(key[index]);
        hash += hash << 10;
        hash ^= hash >> 6;
    }
    hash += hash << 3;
    hash ^= hash >> 11;
    hash += hash << 15;
    return hash;
}

""", """    bool odd = false;
    const char* at = key;
    while (*at != 0)
    {
        const int ch = *at++;
        hash += odd ? tolower(ch) : toupper(ch);
        odd = !odd;
        hash += hash << 10;
        hash ^= hash >> 6;
    }
    hash += hash << 3;
    hash ^= hash >> 11;
    hash += hash << 15;
    return hash;
}

"""))
# ---- symbols
ref("minus-backwards",
 (S+"sym.cc", """    int found_index = -1;
    for (int index = 0; index < minus_symbol_table_index; ++index)
    {
        if (minus_symbol_table[index].file == NULL)
            continue;

        if (stricmp(file, minus_symbol_table[index].file) != 0)
            continue;

        if (minus_symbol_table[index].line <= line)
        {
            found_index = index;
        }
    }
""", """    int found_index = minus_symbol_table_index - 1;
    while (found_index >= 0)
    {
        const plus_minus_sym* entry = &minus_symbol_table[found_index];
        if (entry->file != NULL && stricmp(file, entry->file) == 0 && entry->line <= line)
            break;
        --found_index;
    }
"""))
ref("plus-while",
 (S+"sym.cc", """    int found_index = -1;
    for (int index = 0; index < plus_symbol_table_index; ++index)
    {
        if (stricmp(file, plus_symbol_table[index].file) != 0)
            continue;

        if (plus_symbol_table[index].line > line)
        {
            found_index = index;
            break;
        }
    }
    if (found_index >= 0)
    {
        found_index = found_index -1 + depth;
        if (found_index >= 0 && found_index < plus_symbol_table_index &&
            stricmp(file, plus_symbol_table[found_index].file) == 0)
            return found_index;
    }
    return -1;
""", """    int index = 0;
    while (index < plus_symbol_table_index && (stricmp(file, plus_symbol_table[index].file) != 0 || plus_symbol_table[index].line <= line))
        ++index;
    if (index == plus_symbol_table_index)
        return -1;
    index += depth - 1;
    if (index < 0 || index >= plus_symbol_table_index)
        return -1;
    return stricmp(file, plus_symbol_table[index].file) == 0 ? index : -1;
"""),
 (S+"sym.cc", """int find_plus_symbol_definition(const char* file, const int line)
{
    if (plus_symbol_table_index <= 0) return -1;

    for (int index = 0; index < plus_symbol_table_index; ++index)
    {
        if (compare_plus_minus_sym_value(&plus_symbol_table[index], file, line) == 0)
        {
            return index;
        }
    }
    return -1;
}
""", """static int find_definition(const plus_minus_sym* table, const int count, const char* file, const int line)
{
    for (int index = 0; index < count; ++index)
    {
        if (compare_plus_minus_sym_value(&table[index], file, line) == 0)
        {
            return index;
        }
    }
    return -1;
}

int find_plus_symbol_definition(const char* file, const int line)
{
    return find_definition(plus_symbol_table, plus_symbol_table_index, file, line);
}
"""))
ref("set-value-guards",
 (S+"sym.cc", """    if ((sym != NULL) && (sym->value != value))
    {
        if (((value & ~0xFFFF) != 0) && !sym->is_var)
        {
            error(error_value_out_of_range);
            return NULL;
        }
        sym->value = value;
        if (!sym->is_macro_param && !sym->is_var)
        {
            sym_value_changed++;
            if (changed_sym_stack == NULL)
            {
                changed_sym_stack = create_stack(sizeof(symbol_table));
            }
            changed_sym_stack->push(changed_sym_stack->instance, sym);
        }
    }
    return sym;
""", """    if (sym == NULL || sym->value == value)
        return sym;

    if ((value < 0 || value > 0xFFFF) && !sym->is_var)
    {
        error(error_value_out_of_range);
        return NULL;
    }
    sym->value = value;
    if (sym->is_macro_param || sym->is_var)
        return sym;

    if (changed_sym_stack == NULL)
    {
        changed_sym_stack = create_stack(sizeof(symbol_table));
    }
    sym_value_changed += 1;
    changed_sym_stack->push(changed_sym_stack->instance, sym);
    return sym;
"""))
ref("fullname-helper",
 (S+"sym.cc", """    if (sym.scope)
    {
        len = strlen(sym.name) + strlen(sym.scope) + 2;
        sym.fullname = static_cast<char*>(MALLOC(len));
        if (sym.fullname == NULL)
        {
            error(error_out_of_memory);
            exit(-1);
        }
        sprintf(sym.fullname, "%s.%s", sym.scope, sym.name);
    }
    else
    {
        sym.fullname = (char*)STRDUP(sym.name);
        if (sym.fullname == NULL)
        {
            error(error_out_of_memory);
            exit(-1);
        }
    }
""", """    sym.fullname = make_full_name(sym.scope, sym.name);
"""),
 (S+"sym.cc", """symbol_table_ptr add_symbol(char* name)
{
    if (name == NULL) return NULL;
""", """static char* make_full_name(const char* scope, const char* name)
{
    const size_t scope_len = scope == NULL ? 0 : strlen(scope) + 1;
    char* full = static_cast<char*>(MALLOC(scope_len + strlen(name) + 1));
    if (full == NULL)
    {
        error(error_out_of_memory);
        exit(-1);
    }
    if (scope != NULL)
    {
        strcpy(full, scope);
        strcat(full, ".");
        strcat(full, name);
    }
    else
        strcpy(full, name);
    return full;
}

symbol_table_ptr add_symbol(char* name)
{
    if (name == NULL) return NULL;
"""))
ref("unresolved-helper",
 (S+"sym.cc", """            const auto sym = static_cast<symbol_table_ptr>(elem->value);

            if (sym->is_initialized == false && sym->is_macro_name == false &&
                sym->is_var == false && sym->is_plus_minus == false && sym->is_macro_param == false)
            {
                count++;
            }
""", """            count += is_unresolved(static_cast<symbol_table_ptr>(elem->value)) ? 1 : 0;
"""),
 (S+"sym.cc", """int unresolved_symbol_count(void)
{
""", """static bool is_unresolved(const symbol_table_ptr sym)
{
    if (sym->is_initialized || sym->is_macro_name)
        return false;
    return !sym->is_var && !sym->is_plus_minus && !sym->is_macro_param;
}

int unresolved_symbol_count(void)
{
"""))
# ---- expansion
ref("opcode-operand-size",
 (S+"expand.cc", """    switch (p->opcode.mode)
    {
    default:
    case A:     /* Accumulator          */
    case i:     /* implied              */
        op_bytes = 0;
        break;

    case I:     /* immediate            */
    case zp:    /* zero page            */
    case zpi:   /* zero page indirect   */
    case zpx:   /* zero page x          */
    case zpy:   /* zero page y          */
    case izx:   /* zero page indirect x */
    case izy:   /* zero page indirect y */
        op_bytes = 1;
        break;

    case r:     /* relative             */
        op_bytes = 2;
        break;

    case a:     /* absolute             */
        op_bytes = 2;
        mode_check = zp;
        break;

    case aix:   /* absolute indirect x   */
        op_bytes = 2;
        mode_check = izx;
        break;

    case ax:    /* absolute x           */
        op_bytes = 2;
        mode_check = zpx;
        break;

    case ay:    /* absolute y           */
        op_bytes = 2;
        mode_check = zpy;
        break;

    case ind:   /* absolute indirect    */
        op_bytes = 2;
        mode_check = zpi;
        break;
    }
""", """    op_bytes = operand_bytes(p->opcode.mode);
    mode_check = short_mode(p->opcode.mode);
"""),
 (S+"expand.cc", """//
// Opcode
//
int expand_op_code_node(const parse_node_ptr p)
{
    int mode_check = p->opcode.mode;
""", """static int operand_bytes(const int mode)
{
    if (mode == I || mode == zp || mode == zpi || mode == zpx || mode == zpy || mode == izx || mode == izy)
        return 1;
    return mode == r || mode == a || mode == ax || mode == ay || mode == aix || mode == ind ? 2 : 0;
}

static int short_mode(const int mode)
{
    if (mode == a) return zp;
    if (mode == aix) return izx;
    if (mode == ax) return zpx;
    if (mode == ay) return zpy;
    if (mode == ind) return zpi;
    return mode;
}

//
// Opcode
//
int expand_op_code_node(const parse_node_ptr p)
{
    int mode_check;
"""))
ref("opposite-branch",
 (S+"expand.cc", """                    switch (p->opcode.instruction)
                    {
                    default:
                        // there is no opposite condition
                        error(error_value_out_of_range);
                        break;

                    case _bvs:
                        p->opcode.instruction = _bvc;
                        break;

                    case _bvc:
                        p->opcode.instruction = _bvs;
                        break;

                    case _bcs:
                        p->opcode.instruction = _bcc;
                        break;

                    case _bcc:
                        p->opcode.instruction = _bcs;
                        break;

                    case _bne:
                        p->opcode.instruction = _beq;
                        break;

                    case _beq:
                        p->opcode.instruction = _bne;
                        break;

                    case _bmi:
                        p->opcode.instruction = _bpl;
                        break;

                    case _bpl:
                        p->opcode.instruction = _bmi;
                        break;
                    }
""", """                    const int other = opposite_branch(p->opcode.instruction);
                    if (other < 0)
                        error(error_value_out_of_range);
                    else
                        p->opcode.instruction = other;
"""),
 (S+"expand.cc", """//
// Opcode
//
int expand_op_code_node(const parse_node_ptr p)
{
""", """static int opposite_branch(const int instruction)
{
    static const int pairs[][2] = { { _bvs, _bvc }, { _bcs, _bcc }, { _bne, _beq }, { _bmi, _bpl } };
    for (const auto& pair : pairs)
    {
        if (instruction == pair[0]) return pair[1];
        if (instruction == pair[1]) return pair[0];
    }
    return -1;
}

//
// Opcode
//
int expand_op_code_node(const parse_node_ptr p)
{
"""))
ref("emit-node-helper",
 (S+"expand.cc", """                        if (final_pass)
                        {
                            jmp->opcode.program_counter = program_counter;
                            generate_list_node(jmp);
                            generate_output(output_file, jmp);

                            warn""", """                        if (final_pass)
                        {
                            jmp->opcode.program_counter = program_counter;
                            emit_node(jmp);

                            warn"""),
 (S+"expand.cc", """    if (final_pass)
    {
        generate_list_node(p);
        generate_output(output_file, p);
    }

    program_counter += get_op_code_byte_count(p) + 1;
    code_generated += get_op_code_byte_count(p) + 1;
""", """    if (final_pass)
        emit_node(p);

    const int size = get_op_code_byte_count(p) + 1;
    code_generated += size;
    program_counter += size;
"""),
 (S+"expand.cc", """//
// Opcode
//
int expand_op_code_node(const parse_node_ptr p)
{
""", """static void emit_node(const parse_node_ptr p)
{
    generate_list_node(p);
    generate_output(output_file, p);
}

//
// Opcode
//
int expand_op_code_node(const parse_node_ptr p)
{
"""))
ref("fill-rewrite",
 (S+"expand.cc", """        while (count > 0)
        {
            if (count > 1)
            {
                data_size = data_word;
                if (generate_fill_node2 == nullptr)
                {
                    generate_fill_node2 = data_node(data_word, constant_node(byt << 8 | byt, false));
                }
                const int bytes = 2;
                generate_output(output_file, generate_fill_node2);
                generate_list_node(generate_fill_node2);
                program_counter += bytes;
                count -= bytes;

            }
            else if (count == 1)
            {
                data_size = data_byte;
                if (generate_fill_node1 == nullptr)
                {
                    generate_fill_node1 = data_node(data_byte, constant_node(byt, false));
                }
                const int bytes = 1;
                generate_output(output_file, generate_fill_node1);
                generate_list_node(generate_fill_node1);
                program_counter += bytes;
                count -= bytes;

            }
        }
""", """        for (; count > 1; count -= 2)
        {
            data_size = data_word;
            if (generate_fill_node2 == nullptr)
            {
                generate_fill_node2 = data_node(data_word, constant_node(byt << 8 | byt, false));
            }
            generate_output(output_file, generate_fill_node2);
            generate_list_node(generate_fill_node2);
            program_counter += 2;
        }
        if (count == 1)
        {
            data_size = data_byte;
            generate_fill_node1 = data_node(data_byte, constant_node(byt, false));
            generate_output(output_file, generate_fill_node1);
            generate_list_node(generate_fill_node1);
            program_counter++;
        }
"""))
ref("operators-named",
 (S+"expand.cc", """    const int value = expand_node(p->op[0]) & 0xFFFF;
    const int hi = (value & 0xFF00) >> 8;
    return hi;
""", """    return (expand_node(p->op[0]) >> 8) & 0xFF;
"""),
 (S+"expand.cc", """    const int value = expand_node(p->op[0]) & 0xFFFF;
    const int lo = value & 0xFF;
    return lo;
""", """    return expand_node(p->op[0]) & 0xFF;
"""),
 (S+"expand.cc", """    const unsigned int value = expand_node(p->op[0]);
    const int count = expand_node(p->op[1]);
    if (count < 0)
    {
        error(error_value_out_of_range);
        return 0;
    }
    return count > 31 ? 0 : static_cast<int>(value << count);
""", """    const unsigned int value = expand_node(p->op[0]);
    int count;
    if (!shift_count(p, count))
        return 0;
    if (count >= 32)
        return 0;
    return static_cast<int>(value << count);
"""),
 (S+"expand.cc", """    const int value = expand_node(p->op[0]);
    const int count = expand_node(p->op[1]);
    if (count < 0)
    {
        error(error_value_out_of_range);
        return 0;
    }
    return value >> (count > 31 ? 31 : count);
""", """    const int value = expand_node(p->op[0]);
    int count;
    if (!shift_count(p, count))
        return 0;
    if (count >= 32)
        count = 31;
    return value >> count;
"""),
 (S+"expand.cc", """//
// Operator Shift left
//
""", """static bool shift_count(const parse_node_ptr p, int& count)
{
    count = expand_node(p->op[1]);
    if (count >= 0)
        return true;
    error(error_value_out_of_range);
    return false;
}

//
// Operator Shift left
//
"""))
# ---- files, messages, arguments
ref("search-path-helper",
 (S+"file.cc", """    for (char* dir = directories; *dir != 0;)
    {
        char* p = path;
        int len = 0;
        while (*dir != 0 && *dir != ';' && len < (path_max -1))
        {
            ++len;
            *p++ = *dir++;
        }
        *p = 0;
        if (len + strlen(file) + 2 >= path_max)
        {
            error2(error_path_name_too_long, path);
            exit(-1);  // NOLINT(concurrency-mt-unsafe)
        }
        strcat(path, file);
        fd = fopen(path, mode);
        if (fd != NULL)
            return fd;

        if (*dir == ';')
            dir++;

        while (*dir == ' ' || *dir == '\\t')
            dir++;
    }
    return NULL;
""", """    char* dir = directories;
    while (*dir != 0 && fd == NULL)
    {
        dir = next_path(dir, file);
        fd = fopen(path, mode);
    }
    return fd;
"""),
 (S+"file.cc", """/**
 * \\brief open a file. If""", """static char* next_path(char* dir, const char* file)
{
    int len = 0;
    for (; *dir != 0 && *dir != ';' && len < path_max - 1; ++dir)
        path[len++] = *dir;
    path[len] = 0;
    if (len + strlen(file) + 2 >= path_max)
    {
        error2(error_path_name_too_long, path);
        exit(-1);  // NOLINT(concurrency-mt-unsafe)
    }
    strcat(path, file);
    if (*dir == ';')
        dir++;
    while (*dir == ' ' || *dir == '\\t')
        dir++;
    return dir;
}

/**
 * \\brief open a file. If"""))
ref("option-helper",
 (S+"parseargs.cc", """            if (output_file_name != NULL)
            {
                error(error_output_file_specified_more_than_once);
                usage();
                exit(-1);
            }
            output_file_name = argv[arg_index];
            arg_index++;
            continue;
""", """            if (output_file_name != NULL)
                reject(error_output_file_specified_more_than_once);
            output_file_name = argv[arg_index++];
            continue;
"""),
 (S+"parseargs.cc", """            if (arg_index >= argc)
            {
                error(error_missing_list_file);
                usage();
                exit(-1);
            }
            if (list_file_name != NULL)
            {
                error(error_list_file_specified_more_than_once);
                usage();
                exit(-1);
            }
""", """            if (arg_index >= argc)
                reject(error_missing_list_file);
            if (list_file_name != NULL)
                reject(error_list_file_specified_more_than_once);
"""),
 (S+"parseargs.cc", """int parse_arguments(""", """static void reject(const int err)
{
    error(err);
    usage();
    exit(-1);
}

int parse_arguments("""))
ref("main-flow",
 (S+"main.cc", """    int result =  parse_arguments(argc, argv);
    if (result < 1)
        return result;

    result = assemble();
    return result;
""", """    const int files = parse_arguments(argc, argv);
    return files < 1 ? files : assemble();
"""),
 (S+"error.cc", """    if (strlen(errors[err_num]) + strlen(parameter) + 2 < max_line_len)
    {
        sprintf(internal_buffer, "%s %s", errors[err_num], parameter);  // NOLINT(cert-err33-c)
        yyerror(internal_buffer);
    }
    else
    {
        error(err_num);
    }
""", """    const size_t needed = strlen(errors[err_num]) + strlen(parameter) + 2;
    if (needed >= max_line_len)
    {
        error(err_num);
        return;
    }
    sprintf(internal_buffer, "%s %s", errors[err_num], parameter);  // NOLINT(cert-err33-c)
    yyerror(internal_buffer);
"""))

from refactors2 import add; add(ref)
DRV = "C10 C11 C12 C13 C20"; ASM = "C01 C03 C04 C05 C06 C07 C08 C09 C28"
REL = {"genoutput.cc": ASM + " C12", "pass.cc": DRV, "main.cc": DRV, "error.cc": DRV, "parseargs.cc": DRV, "file.cc": "C20 C08", "dictionary.cc": "C14 C15 C16 C10 C13",
       "hash.cc": "C15 C16 C14", "sym.cc": "C14 C15 C30 C10 C13", "expand.cc": ASM + " C10 C12 C14 C15 C24 C26", "genlist.cc": "C28 C20 C12", "node.cc": "C28 C03 C08 C15", "str.cc": "C08", "opcodes.cc": "C01 C04",
       "stacks.cc": "C13 C14"}
def main():
    args = sys.argv[1:]
    checks = None
    if "--" in args: checks = args[args.index("--") + 1:]; args = args[:args.index("--")]
    notest = "-n" in args
    if notest: args.remove("-n")
    ids = set(args)
    import json
    allc = [c["property"] for c in json.load(open("/verif/MANIFEST.json"))["checks"]] if not checks else checks
    for i, edits in R:
        if ids and i not in ids: continue
        if not checks: allc = sorted({c for f, o, n in edits for c in REL[os.path.basename(f)].split()})
        d = tempfile.mkdtemp(dir="/tmp")
        try:
            subprocess.check_call(["git", "clone", "-q", "/repo", d + "/r"])
            for f, old, new in edits:
                p = d + "/r/" + f
                s = open(p, newline='').read()
                if "\r\n" in s: old = old.replace("\n", "\r\n"); new = new.replace("\n", "\r\n")
                if s.count(old) != 1: print(i, "pattern found", s.count(old), "times in", f, old[:80]); break
                open(p, "w", newline='').write(s.replace(old, new))
            else:
                if not notest:
                    r = subprocess.run(["/tmp/bt.sh", d + "/r"], capture_output=True, text=True)
                    print(i, "build/test:", (r.stdout + r.stderr).strip().split("\n")[-1], flush=True)
                def one(c):
                    e = dict(os.environ, PASM_REPO=d + "/r", VERIF_EVIDENCE=d + "/ev")
                    r = subprocess.run(["timeout", "900", "python3", "/verif/check.py", c], capture_output=True, text=True, env=e)
                    o = [x for x in (r.stdout + r.stderr).split("\n") if "violated" in x or "ERROR" in x]
                    return c, r.returncode, (o or [""])[0][:250]
                with cf.ThreadPoolExecutor(3) as ex:
                    bad = [x for x in ex.map(one, allc) if x[1] != 0]
                print(i, "quiet" if not bad else "", flush=True)
                for c, rc, o in bad: print("   %s exit %d: %s" % (c, rc, o), flush=True)
        finally: shutil.rmtree(d)
if __name__ == "__main__": main()
