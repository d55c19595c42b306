CASES = []
F = "config/parse.c"


def m(id, prop, file, old, new, *more):
    CASES.append(dict(id=id, expect=[prop] if prop else [], edits=[(file, old, new)] + list(more)))


P = "C40"
m("c40-env-over", P, F, """                    if (optionValue->found)
                        continue;

                    optionValue->found = true;
                    optionValue->source = cfgSourceConfig;

                    // Convert""", """                    if (optionValue->found && optionValue->source != cfgSourceParam)
                        continue;

                    optionValue->found = true;
                    optionValue->source = cfgSourceConfig;

                    // Convert""")
m("c40-file-over", P, F, """                    if (optionValue->found)
                        continue;

                    optionValue->found = true;
                    optionValue->source = cfgSourceConfig;

                    // Process list""", """                    if (optionValue->found && !optionValue->reset)
                        continue;

                    optionValue->found = true;
                    optionValue->source = cfgSourceConfig;

                    // Process list""")
m("c40-env-source", P, F, """                    optionValue->source = cfgSourceConfig;

                    // Convert""", """                    optionValue->source = cfgSourceParam;

                    // Convert""")
m("c40-env-valid", P, F, """                    // Continue if the option is not valid for this command
                    if (!cfgParseOptionValid(config->command, config->commandRole, option.id))
                        continue;

                    if (strSize(value)""", """                    if (strSize(value)""")
m("c40-valid-role", P, F, """                    if (!cfgParseOptionValid(config->command, config->commandRole, option.id))
                        continue;

                    if (strSize(value)""", """                    if (!cfgParseOptionValid(config->command, cfgCmdRoleMain, option.id))
                        continue;

                    if (strSize(value)""")
m("c40-file-negate", P, F, """                        LOG_WARN_FMT("configuration file contains negate option '%s'", strZ(key));
                        continue;""", """                        LOG_WARN_FMT("configuration file contains negate option '%s'", strZ(key));""")
m("c40-cmdonly", P, F, """                        LOG_WARN_FMT("configuration file contains command-line only option '%s'", strZ(key));
                        continue;""", """                        LOG_WARN_FMT("configuration file contains command-line only option '%s'", strZ(key));""")
m("c40-stanza-global", P, F, """                        (strEqZ(section, CFGDEF_SECTION_GLOBAL) || strBeginsWithZ(section, CFGDEF_SECTION_GLOBAL ":")))""", """                        strEqZ(section, CFGDEF_SECTION_GLOBAL))""")
m("c40-stanza-global2", P, F, """                        (strEqZ(section, CFGDEF_SECTION_GLOBAL) || strBeginsWithZ(section, CFGDEF_SECTION_GLOBAL ":")))""", """                        strBeginsWithZ(section, CFGDEF_SECTION_GLOBAL ":"))""")
m("c40-dup-name", P, F, """                        kvPut(optionFound, optionFoundKey, VARSTR(key));""", """                        kvPut(optionFound, VARUINT64(option.id), VARSTR(key));""")
m("c40-order", P, F, """            strLstAddFmt(sectionList, CFGDEF_SECTION_GLOBAL ":%s", cfgParseCommandName(config->command));
            strLstAddZ(sectionList, CFGDEF_SECTION_GLOBAL);
""", """            strLstAddZ(sectionList, CFGDEF_SECTION_GLOBAL);
            strLstAddFmt(sectionList, CFGDEF_SECTION_GLOBAL ":%s", cfgParseCommandName(config->command));
""")
m("c40-order2", P, F, """            if (stanza != NULL)
            {
                strLstAddFmt(sectionList, "%s:%s", strZ(stanza), cfgParseCommandName(config->command));
                strLstAdd(sectionList, stanza);
            }

            strLstAddFmt(sectionList, CFGDEF_SECTION_GLOBAL ":%s", cfgParseCommandName(config->command));
""", """            if (stanza != NULL)
                strLstAddFmt(sectionList, "%s:%s", strZ(stanza), cfgParseCommandName(config->command));

            strLstAddFmt(sectionList, CFGDEF_SECTION_GLOBAL ":%s", cfgParseCommandName(config->command));

            if (stanza != NULL)
                strLstAdd(sectionList, stanza);

""")
m("c40-order-left", P, F, """                strLstAdd(sectionList, stanza);
            }
""", """            }
""")
m("c40-secure", P, F, "                if (cfgParseOptionSecure(option.id))", "                if (cfgParseOptionSecure(option.id) && optionArg == NULL)")
m("c40-multi", P, F, "if (optionArg != NULL && option.multi)", "if (optionArg != NULL)")
m("c40-twice", P, F, """                    // Error if the option does not accept multiple arguments
                    else
                    {
                        THROW_FMT(
                            OptionInvalidError, "option '%s' cannot be set multiple times",
                            cfgParseOptionKeyIdxName(option.id, option.keyIdx));
                    }
                }
            }
            // Else command""", """                    else if (!strEq(strLstGet(optionValue->valueList, 0), optionArg))
                    {
                        THROW_FMT(
                            OptionInvalidError, "option '%s' cannot be set multiple times",
                            cfgParseOptionKeyIdxName(option.id, option.keyIdx));
                    }
                }
            }
            // Else command""")
m("c40-negate-set", P, F, "                    if (optionValue->negate != option.negate)", "                    if (optionValue->negate && !option.negate)")
m("c40-reset-set", P, F, "                    if (optionValue->reset != option.reset)", "                    if (!optionValue->reset && option.reset)")
m("c40-bool", P, F, """                            else if (!strEqZ(optionArg, "y"))
                            {""", """                            else if (!strEqZ(optionArg, "y") && !strEqZ(optionArg, "1"))
                            {""")
m("c40-bool-env", P, F, """                        else if (!strEqZ(value, "y"))
                            THROW_FMT(OptionInvalidValueError, "environment""", """                        else if (!strEqZ(value, "y") && strSize(value) == 1)
                            THROW_FMT(OptionInvalidValueError, "environment""")
m("c40-bool-file", P, F, """                            if (strEqZ(value, "n"))
                                optionValue->negate = true;
                            else if (!strEqZ(value, "y"))
                                THROW_FMT(OptionInvalidValueError, "boolean""", """                            if (!strEqZ(value, "y"))
                                optionValue->negate = true;
                            else if (strEqZ(value, "n"))
                                THROW_FMT(OptionInvalidValueError, "boolean""")
m("c40-role", P, F, "                        if (!(parseRuleCommand[config->command].commandRoleValid & ((unsigned int)1 << config->commandRole)))", "                        if (colonPtr == NULL && !(parseRuleCommand[config->command].commandRoleValid & ((unsigned int)1 << config->commandRole)))")
m("c40-param", P, F, "if (config->paramList != NULL && !config->help && !ruleCommand->parameterAllowed)", "if (config->paramList != NULL && !config->help && !ruleCommand->parameterAllowed && strLstSize(config->paramList) > 1)")
m("c40-unused", P, F, """                if (parseOptionList[optionId].indexList != NULL)
                {""", """                if (parseOptionList[optionId].indexList != NULL && !parseOptionList[optionId].indexList[0].negate)
                {""")
m("c40-depend", P, F, "if (!dependResult.valid && optionSet && parseOptionValue->source == cfgSourceParam)", "if (!dependResult.valid && optionSet && parseOptionValue->source == cfgSourceParam && !optionGroup)")
m("c40-depend-set", P, F, """                if (dependResult.valid)
                {
                    // Is the option set?""", """                if (dependResult.valid || parseOptionValue->source == cfgSourceConfig)
                {
                    // Is the option set?""")
m("c40-set-reset", P, F, """                    parseOptionValue->found && (optionType == cfgOptTypeBoolean || !parseOptionValue->negate) &&
                    !parseOptionValue->reset;""", """                    parseOptionValue->found && (optionType == cfgOptTypeBoolean || !parseOptionValue->negate);""")
m("c40-range-min", P, F, "(configOptionValue->value.integer < optionalRules.allowRangeMin ||\n                                     configOptionValue->value.integer > optionalRules.allowRangeMax))", "                    (configOptionValue->value.integer > optionalRules.allowRangeMax))")
m("c40-range-max", P, F, "configOptionValue->value.integer > optionalRules.allowRangeMax", "configOptionValue->value.integer > optionalRules.allowRangeMax + 1")
m("c40-range-int", P, F, """                                if (cfgParseOptionalRule(
                                        &optionalRules, parseRuleOptionalTypeAllowRange""", """                                if (optionType != cfgOptTypeTime && cfgParseOptionalRule(
                                        &optionalRules, parseRuleOptionalTypeAllowRange""")
m("c40-size-type", P, F, "configOptionValue->value.integer = cfgParseSize(value);", "configOptionValue->value.integer = cvtZToInt64(strZ(value));")
m("c40-empty", P, F, "                                if (strSize(value) == 0)\n                                {", "                                if (strSize(value) == 0 && optionType == cfgOptTypePath)\n                                {")
m("c40-slash", P, F, """if (!strBeginsWithZ(value, "/"))""", """if (!strBeginsWithZ(value, "/") && !strBeginsWithZ(value, "./"))""")
m("c40-slashes", P, F, """if (strstr(strZ(value), "//") != NULL)""", """if (strBeginsWithZ(value, "//"))""")
m("c40-allow", P, F, "                                if (!allowListFound)\n                                {", "                                if (!allowListFound && ruleOption->type == cfgOptTypeStringId)\n                                {")
m("c40-default-neg", P, F, "if ((!configOptionValue->set && !parseOptionValue->negate) || config->help)", "if (!configOptionValue->set || config->help)")
m("c40-default-set", P, F, """                            if (!configOptionValue->set)
                            {
                                configOptionValue->set = true;""", """                            if (configOptionValue->source != cfgSourceParam)
                            {
                                configOptionValue->set = true;""")
m("c40-required", P, F, "                            if (required)\n", "                            if (required && optionListIdx == 0)\n")
m("c40-required-rule", P, F, """                                cfgParseOptionalRule(&optionalRules, parseRuleOptionalTypeRequired, config->command, optionId) ?
                                    optionalRules.required : ruleOption->required;""", "                                ruleOption->required;")
m("c40-required-default", P, F, "cfgParseOptionalRule(&optionalRules, parseRuleOptionalTypeDefault, config->command, optionId)", "cfgParseOptionalRule(&optionalRules, parseRuleOptionalTypeDefault, cfgCmdHelp, optionId)")
m("c40-group-val", P, F, "if (option->group && option->groupId == optionGroupIdx)", "if (option->group && option->valid && option->groupId == optionGroupIdx && option->index[keyIdx].set)")
m("c40-group-size", P, F, "sizeof(ConfigOptionValue) * (optionGroup->indexTotal - keyIdx - 1));", "sizeof(unsigned int) * (optionGroup->indexTotal - keyIdx - 1));")
m("c40-group-src", P, F, "option->index + keyIdx, option->index + (keyIdx + 1),", "option->index + keyIdx, option->index + keyIdx,")
m("c40-key-missing", P, F, "                if (index == cfgOptionGroupIdxTotal(groupId))\n                {", "                if (index == cfgOptionGroupIdxTotal(groupId) && index > 1)\n                {")
m("c40-key-cmp", P, F, "const unsigned int optionKeyIdx = cfgOptionUInt(defaultOptionId) - 1;", "const unsigned int optionKeyIdx = cfgOptionUInt(defaultOptionId);")
m("c40-conf-missing", P, F, "const Buffer *buffer = storageGetP(storageNewReadP(storage, configFileName, .ignoreMissing = !configRequired));", "const Buffer *buffer = storageGetP(storageNewReadP(storage, configFileName, .ignoreMissing = true));")
m("c40-inc-missing", P, F, ".errorOnMissing = configIncludeRequired,\n            .nullOnMissing = !configIncludeRequired);", ".nullOnMissing = true);")
m("c40-noconfig", P, F, """        loadConfig = false;
        configRequired = false;
""", """        configRequired = false;
""")
m("c40-sort", P, F, "strLstSort(list, sortOrderAsc);\n\n            for (unsigned int listIdx", "strLstSort(list, sortOrderDesc);\n\n            for (unsigned int listIdx")
m("c40-inivalid", P, F, "            iniValid(iniNewP(ioBufferReadNew(configPart)));\n", "            if (*config == NULL)\n                iniValid(iniNewP(ioBufferReadNew(configPart)));\n")
m("c40-part", P, F, "        if (bufUsed(configPart) > 0)\n", "        if (bufUsed(configPart) > 1 && *config == NULL)\n")
m("c40-help-load", P, F, "config->command != cfgCmdHelp && config->command != cfgCmdVersion;", "config->command != cfgCmdVersion;")
m("c40-value-key", P, F, "const String *const value = iniGet(configParseLocal.ini, section, key);", "const String *const value = iniGet(configParseLocal.ini, strLstGet(sectionList, strLstSize(sectionList) - 1), key);")
m("c40-env-multi", P, F, """                    else if (option.multi)
                    {
                        optionValue->valueList = strLstNewSplitZ(value, ":");""", """                    else if (strChr(value, ':') != -1)
                    {
                        optionValue->valueList = strLstNewSplitZ(value, ":");""")
# The same behaviour, written another way
m("c40-r-helper", "", F, """static bool
cfgParseOptionValueCondition(""", """static void
parseValueMark(ParseOptionValue *const optionValue)
{
    optionValue->found = true;
    optionValue->source = cfgSourceConfig;
}

static bool
cfgParseOptionValueCondition(""", (F, """                    optionValue->found = true;
                    optionValue->source = cfgSourceConfig;

                    // Convert""", """                    parseValueMark(optionValue);

                    // Convert"""), (F, """                    optionValue->found = true;
                    optionValue->source = cfgSourceConfig;

                    // Process list""", """                    parseValueMark(optionValue);

                    // Process list"""))
m("c40-r-nest", "", F, """                    if (optionValue->found)
                        continue;

                    optionValue->found = true;
                    optionValue->source = cfgSourceConfig;

                    // Convert boolean to string
                    if (cfgParseOptionType(option.id) == cfgOptTypeBoolean)""", """                    const bool already = optionValue->found;

                    if (already)
                        continue;

                    optionValue->source = cfgSourceConfig;
                    optionValue->found = true;

                    const bool isBool = cfgParseOptionType(option.id) == cfgOptTypeBoolean;

                    if (isBool)""")
m("c40-r-range", "", F, "(configOptionValue->value.integer < optionalRules.allowRangeMin ||\n                                     configOptionValue->value.integer > optionalRules.allowRangeMax))", "                    !(optionalRules.allowRangeMin <= configOptionValue->value.integer &&\n                     configOptionValue->value.integer <= optionalRules.allowRangeMax))")
m("c40-r-required", "", F, """                            if (required)
                            {""", """                            if (!required)
                                ;
                            else
                            {""")
m("c40-r-key", "", F, """                for (; index < cfgOptionGroupIdxTotal(groupId); index++)
                {
                    if (config->optionGroup[groupId].indexMap[index] == optionKeyIdx)
                        break;
                }

                // Error if the key was not found
                if (index == cfgOptionGroupIdxTotal(groupId))""", """                while (index < cfgOptionGroupIdxTotal(groupId) && config->optionGroup[groupId].indexMap[index] != optionKeyIdx)
                    index++;

                // Error if the key was not found
                if (index >= cfgOptionGroupIdxTotal(groupId))""")
m("c40-r-stanza", "", F, """                    if (ruleOption->section == cfgSectionStanza &&
                        (strEqZ(section, CFGDEF_SECTION_GLOBAL) || strBeginsWithZ(section, CFGDEF_SECTION_GLOBAL ":")))
                    {""", """                    const bool sectionGlobal =
                        strEqZ(section, CFGDEF_SECTION_GLOBAL) || strBeginsWithZ(section, CFGDEF_SECTION_GLOBAL ":");

                    if (sectionGlobal && ruleOption->section == cfgSectionStanza)
                    {""")
m("c40-r-optset", "", F, """                    parseOptionValue->found && (optionType == cfgOptTypeBoolean || !parseOptionValue->negate) &&
                    !parseOptionValue->reset;""", """                    !parseOptionValue->reset && parseOptionValue->found &&
                    !(parseOptionValue->negate && optionType != cfgOptTypeBoolean);""")
m("c40-r-file", "", F, """    if (loadConfig)
    {
        const String *configFileName = NULL;

        // Get the config file name from the command-line if it exists else default
        if (configRequired)
            configFileName = strLstGet(optionList[cfgOptConfig].indexList[0].valueList, 0);
        else
            configFileName = optConfigDefault;
""", """    if (loadConfig)
    {
        const String *const configFileName =
            configRequired ? strLstGet(optionList[cfgOptConfig].indexList[0].valueList, 0) : optConfigDefault;
""")
m("c40-r-sections", "", F, """            if (stanza != NULL)
            {
                strLstAddFmt(sectionList, "%s:%s", strZ(stanza), cfgParseCommandName(config->command));
                strLstAdd(sectionList, stanza);
            }

            strLstAddFmt(sectionList, CFGDEF_SECTION_GLOBAL ":%s", cfgParseCommandName(config->command));
""", """            const char *const commandName = cfgParseCommandName(config->command);

            if (stanza != NULL)
            {
                strLstAdd(sectionList, strNewFmt("%s:%s", strZ(stanza), commandName));
                strLstAddFmt(sectionList, "%s", strZ(stanza));
            }

            strLstAdd(sectionList, strNewFmt(CFGDEF_SECTION_GLOBAL ":%s", commandName));
""")
