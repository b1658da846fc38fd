// S(type, DAP name)  F(member, DAP field name, optional, JSON kind)  E(type)  B(type, base)
S(AttachResponse, "")
E(AttachResponse)
S(AttachRequest, "attach")
  F(restart, "__restart", 1, 'v')
E(AttachRequest)
S(Checksum, "")
  F(algorithm, "algorithm", 0, 's')
  F(checksum, "checksum", 0, 's')
E(Checksum)
S(Source, "")
  F(adapterData, "adapterData", 1, 'v')
  F(checksums, "checksums", 1, 'a')
  F(name, "name", 1, 's')
  F(origin, "origin", 1, 's')
  F(path, "path", 1, 's')
  F(presentationHint, "presentationHint", 1, 's')
  F(sourceReference, "sourceReference", 1, 'i')
  F(sources, "sources", 1, 'a')
E(Source)
S(Breakpoint, "")
  F(column, "column", 1, 'i')
  F(endColumn, "endColumn", 1, 'i')
  F(endLine, "endLine", 1, 'i')
  F(id, "id", 1, 'i')
  F(instructionReference, "instructionReference", 1, 's')
  F(line, "line", 1, 'i')
  F(message, "message", 1, 's')
  F(offset, "offset", 1, 'i')
  F(reason, "reason", 1, 's')
  F(source, "source", 1, 'o')
  F(verified, "verified", 0, 'b')
E(Breakpoint)
S(BreakpointEvent, "breakpoint")
  F(breakpoint, "breakpoint", 0, 'o')
  F(reason, "reason", 0, 's')
E(BreakpointEvent)
S(BreakpointLocation, "")
  F(column, "column", 1, 'i')
  F(endColumn, "endColumn", 1, 'i')
  F(endLine, "endLine", 1, 'i')
  F(line, "line", 0, 'i')
E(BreakpointLocation)
S(BreakpointLocationsResponse, "")
  F(breakpoints, "breakpoints", 0, 'a')
E(BreakpointLocationsResponse)
S(BreakpointLocationsRequest, "breakpointLocations")
  F(column, "column", 1, 'i')
  F(endColumn, "endColumn", 1, 'i')
  F(endLine, "endLine", 1, 'i')
  F(line, "line", 0, 'i')
  F(source, "source", 0, 'o')
E(BreakpointLocationsRequest)
S(CancelResponse, "")
E(CancelResponse)
S(CancelRequest, "cancel")
  F(progressId, "progressId", 1, 's')
  F(requestId, "requestId", 1, 'i')
E(CancelRequest)
S(ColumnDescriptor, "")
  F(attributeName, "attributeName", 0, 's')
  F(format, "format", 1, 's')
  F(label, "label", 0, 's')
  F(type, "type", 1, 's')
  F(width, "width", 1, 'i')
E(ColumnDescriptor)
S(BreakpointMode, "")
  F(appliesTo, "appliesTo", 0, 'a')
  F(description, "description", 1, 's')
  F(label, "label", 0, 's')
  F(mode, "mode", 0, 's')
E(BreakpointMode)
S(ExceptionBreakpointsFilter, "")
  F(conditionDescription, "conditionDescription", 1, 's')
  F(def, "default", 1, 'b')
  F(description, "description", 1, 's')
  F(filter, "filter", 0, 's')
  F(label, "label", 0, 's')
  F(supportsCondition, "supportsCondition", 1, 'b')
E(ExceptionBreakpointsFilter)
S(Capabilities, "")
  F(additionalModuleColumns, "additionalModuleColumns", 1, 'a')
  F(breakpointModes, "breakpointModes", 1, 'a')
  F(completionTriggerCharacters, "completionTriggerCharacters", 1, 'a')
  F(exceptionBreakpointFilters, "exceptionBreakpointFilters", 1, 'a')
  F(supportSuspendDebuggee, "supportSuspendDebuggee", 1, 'b')
  F(supportTerminateDebuggee, "supportTerminateDebuggee", 1, 'b')
  F(supportedChecksumAlgorithms, "supportedChecksumAlgorithms", 1, 'a')
  F(supportsBreakpointLocationsRequest, "supportsBreakpointLocationsRequest", 1, 'b')
  F(supportsCancelRequest, "supportsCancelRequest", 1, 'b')
  F(supportsClipboardContext, "supportsClipboardContext", 1, 'b')
  F(supportsCompletionsRequest, "supportsCompletionsRequest", 1, 'b')
  F(supportsConditionalBreakpoints, "supportsConditionalBreakpoints", 1, 'b')
  F(supportsConfigurationDoneRequest, "supportsConfigurationDoneRequest", 1, 'b')
  F(supportsDataBreakpoints, "supportsDataBreakpoints", 1, 'b')
  F(supportsDelayedStackTraceLoading, "supportsDelayedStackTraceLoading", 1, 'b')
  F(supportsDisassembleRequest, "supportsDisassembleRequest", 1, 'b')
  F(supportsEvaluateForHovers, "supportsEvaluateForHovers", 1, 'b')
  F(supportsExceptionFilterOptions, "supportsExceptionFilterOptions", 1, 'b')
  F(supportsExceptionInfoRequest, "supportsExceptionInfoRequest", 1, 'b')
  F(supportsExceptionOptions, "supportsExceptionOptions", 1, 'b')
  F(supportsFunctionBreakpoints, "supportsFunctionBreakpoints", 1, 'b')
  F(supportsGotoTargetsRequest, "supportsGotoTargetsRequest", 1, 'b')
  F(supportsHitConditionalBreakpoints, "supportsHitConditionalBreakpoints", 1, 'b')
  F(supportsInstructionBreakpoints, "supportsInstructionBreakpoints", 1, 'b')
  F(supportsLoadedSourcesRequest, "supportsLoadedSourcesRequest", 1, 'b')
  F(supportsLogPoints, "supportsLogPoints", 1, 'b')
  F(supportsModulesRequest, "supportsModulesRequest", 1, 'b')
  F(supportsReadMemoryRequest, "supportsReadMemoryRequest", 1, 'b')
  F(supportsRestartFrame, "supportsRestartFrame", 1, 'b')
  F(supportsRestartRequest, "supportsRestartRequest", 1, 'b')
  F(supportsSetExpression, "supportsSetExpression", 1, 'b')
  F(supportsSetVariable, "supportsSetVariable", 1, 'b')
  F(supportsSingleThreadExecutionRequests, "supportsSingleThreadExecutionRequests", 1, 'b')
  F(supportsStepBack, "supportsStepBack", 1, 'b')
  F(supportsStepInTargetsRequest, "supportsStepInTargetsRequest", 1, 'b')
  F(supportsSteppingGranularity, "supportsSteppingGranularity", 1, 'b')
  F(supportsTerminateRequest, "supportsTerminateRequest", 1, 'b')
  F(supportsTerminateThreadsRequest, "supportsTerminateThreadsRequest", 1, 'b')
  F(supportsValueFormattingOptions, "supportsValueFormattingOptions", 1, 'b')
  F(supportsWriteMemoryRequest, "supportsWriteMemoryRequest", 1, 'b')
E(Capabilities)
S(CapabilitiesEvent, "capabilities")
  F(capabilities, "capabilities", 0, 'o')
E(CapabilitiesEvent)
S(CompletionItem, "")
  F(detail, "detail", 1, 's')
  F(label, "label", 0, 's')
  F(length, "length", 1, 'i')
  F(selectionLength, "selectionLength", 1, 'i')
  F(selectionStart, "selectionStart", 1, 'i')
  F(sortText, "sortText", 1, 's')
  F(start, "start", 1, 'i')
  F(text, "text", 1, 's')
  F(type, "type", 1, 's')
E(CompletionItem)
S(CompletionsResponse, "")
  F(targets, "targets", 0, 'a')
E(CompletionsResponse)
S(CompletionsRequest, "completions")
  F(column, "column", 0, 'i')
  F(frameId, "frameId", 1, 'i')
  F(line, "line", 1, 'i')
  F(text, "text", 0, 's')
E(CompletionsRequest)
S(ConfigurationDoneResponse, "")
E(ConfigurationDoneResponse)
S(ConfigurationDoneRequest, "configurationDone")
E(ConfigurationDoneRequest)
S(ContinueResponse, "")
  F(allThreadsContinued, "allThreadsContinued", 1, 'b')
E(ContinueResponse)
S(ContinueRequest, "continue")
  F(singleThread, "singleThread", 1, 'b')
  F(threadId, "threadId", 0, 'i')
E(ContinueRequest)
S(ContinuedEvent, "continued")
  F(allThreadsContinued, "allThreadsContinued", 1, 'b')
  F(threadId, "threadId", 0, 'i')
E(ContinuedEvent)
S(DataBreakpointInfoResponse, "")
  F(accessTypes, "accessTypes", 1, 'a')
  F(canPersist, "canPersist", 1, 'b')
  F(dataId, "dataId", 0, 'v')
  F(description, "description", 0, 's')
E(DataBreakpointInfoResponse)
S(DataBreakpointInfoRequest, "dataBreakpointInfo")
  F(frameId, "frameId", 1, 'i')
  F(mode, "mode", 1, 's')
  F(name, "name", 0, 's')
  F(variablesReference, "variablesReference", 1, 'i')
E(DataBreakpointInfoRequest)
S(DisassembledInstruction, "")
  F(address, "address", 0, 's')
  F(column, "column", 1, 'i')
  F(endColumn, "endColumn", 1, 'i')
  F(endLine, "endLine", 1, 'i')
  F(instruction, "instruction", 0, 's')
  F(instructionBytes, "instructionBytes", 1, 's')
  F(line, "line", 1, 'i')
  F(location, "location", 1, 'o')
  F(presentationHint, "presentationHint", 1, 's')
  F(symbol, "symbol", 1, 's')
E(DisassembledInstruction)
S(DisassembleResponse, "")
  F(instructions, "instructions", 0, 'a')
E(DisassembleResponse)
S(DisassembleRequest, "disassemble")
  F(instructionCount, "instructionCount", 0, 'i')
  F(instructionOffset, "instructionOffset", 1, 'i')
  F(memoryReference, "memoryReference", 0, 's')
  F(offset, "offset", 1, 'i')
  F(resolveSymbols, "resolveSymbols", 1, 'b')
E(DisassembleRequest)
S(DisconnectResponse, "")
E(DisconnectResponse)
S(DisconnectRequest, "disconnect")
  F(restart, "restart", 1, 'b')
  F(suspendDebuggee, "suspendDebuggee", 1, 'b')
  F(terminateDebuggee, "terminateDebuggee", 1, 'b')
E(DisconnectRequest)
S(Message, "")
  F(format, "format", 0, 's')
  F(id, "id", 0, 'i')
  F(sendTelemetry, "sendTelemetry", 1, 'b')
  F(showUser, "showUser", 1, 'b')
  F(url, "url", 1, 's')
  F(urlLabel, "urlLabel", 1, 's')
  F(variables, "variables", 1, 'o')
E(Message)
S(ErrorResponse, "")
  F(error, "error", 1, 'o')
E(ErrorResponse)
S(VariablePresentationHint, "")
  F(attributes, "attributes", 1, 'a')
  F(kind, "kind", 1, 's')
  F(lazy, "lazy", 1, 'b')
  F(visibility, "visibility", 1, 's')
E(VariablePresentationHint)
S(EvaluateResponse, "")
  F(indexedVariables, "indexedVariables", 1, 'i')
  F(memoryReference, "memoryReference", 1, 's')
  F(namedVariables, "namedVariables", 1, 'i')
  F(presentationHint, "presentationHint", 1, 'o')
  F(result, "result", 0, 's')
  F(type, "type", 1, 's')
  F(variablesReference, "variablesReference", 0, 'i')
E(EvaluateResponse)
S(ValueFormat, "")
  F(hex, "hex", 1, 'b')
E(ValueFormat)
S(EvaluateRequest, "evaluate")
  F(context, "context", 1, 's')
  F(expression, "expression", 0, 's')
  F(format, "format", 1, 'o')
  F(frameId, "frameId", 1, 'i')
E(EvaluateRequest)
S(ExceptionDetails, "")
  F(evaluateName, "evaluateName", 1, 's')
  F(fullTypeName, "fullTypeName", 1, 's')
  F(innerException, "innerException", 1, 'a')
  F(message, "message", 1, 's')
  F(stackTrace, "stackTrace", 1, 's')
  F(typeName, "typeName", 1, 's')
E(ExceptionDetails)
S(ExceptionInfoResponse, "")
  F(breakMode, "breakMode", 0, 's')
  F(description, "description", 1, 's')
  F(details, "details", 1, 'o')
  F(exceptionId, "exceptionId", 0, 's')
E(ExceptionInfoResponse)
S(ExceptionInfoRequest, "exceptionInfo")
  F(threadId, "threadId", 0, 'i')
E(ExceptionInfoRequest)
S(ExitedEvent, "exited")
  F(exitCode, "exitCode", 0, 'i')
E(ExitedEvent)
S(GotoResponse, "")
E(GotoResponse)
S(GotoRequest, "goto")
  F(targetId, "targetId", 0, 'i')
  F(threadId, "threadId", 0, 'i')
E(GotoRequest)
S(GotoTarget, "")
  F(column, "column", 1, 'i')
  F(endColumn, "endColumn", 1, 'i')
  F(endLine, "endLine", 1, 'i')
  F(id, "id", 0, 'i')
  F(instructionPointerReference, "instructionPointerReference", 1, 's')
  F(label, "label", 0, 's')
  F(line, "line", 0, 'i')
E(GotoTarget)
S(GotoTargetsResponse, "")
  F(targets, "targets", 0, 'a')
E(GotoTargetsResponse)
S(GotoTargetsRequest, "gotoTargets")
  F(column, "column", 1, 'i')
  F(line, "line", 0, 'i')
  F(source, "source", 0, 'o')
E(GotoTargetsRequest)
S(InitializeResponse, "")
  F(additionalModuleColumns, "additionalModuleColumns", 1, 'a')
  F(breakpointModes, "breakpointModes", 1, 'a')
  F(completionTriggerCharacters, "completionTriggerCharacters", 1, 'a')
  F(exceptionBreakpointFilters, "exceptionBreakpointFilters", 1, 'a')
  F(supportSuspendDebuggee, "supportSuspendDebuggee", 1, 'b')
  F(supportTerminateDebuggee, "supportTerminateDebuggee", 1, 'b')
  F(supportedChecksumAlgorithms, "supportedChecksumAlgorithms", 1, 'a')
  F(supportsBreakpointLocationsRequest, "supportsBreakpointLocationsRequest", 1, 'b')
  F(supportsCancelRequest, "supportsCancelRequest", 1, 'b')
  F(supportsClipboardContext, "supportsClipboardContext", 1, 'b')
  F(supportsCompletionsRequest, "supportsCompletionsRequest", 1, 'b')
  F(supportsConditionalBreakpoints, "supportsConditionalBreakpoints", 1, 'b')
  F(supportsConfigurationDoneRequest, "supportsConfigurationDoneRequest", 1, 'b')
  F(supportsDataBreakpoints, "supportsDataBreakpoints", 1, 'b')
  F(supportsDelayedStackTraceLoading, "supportsDelayedStackTraceLoading", 1, 'b')
  F(supportsDisassembleRequest, "supportsDisassembleRequest", 1, 'b')
  F(supportsEvaluateForHovers, "supportsEvaluateForHovers", 1, 'b')
  F(supportsExceptionFilterOptions, "supportsExceptionFilterOptions", 1, 'b')
  F(supportsExceptionInfoRequest, "supportsExceptionInfoRequest", 1, 'b')
  F(supportsExceptionOptions, "supportsExceptionOptions", 1, 'b')
  F(supportsFunctionBreakpoints, "supportsFunctionBreakpoints", 1, 'b')
  F(supportsGotoTargetsRequest, "supportsGotoTargetsRequest", 1, 'b')
  F(supportsHitConditionalBreakpoints, "supportsHitConditionalBreakpoints", 1, 'b')
  F(supportsInstructionBreakpoints, "supportsInstructionBreakpoints", 1, 'b')
  F(supportsLoadedSourcesRequest, "supportsLoadedSourcesRequest", 1, 'b')
  F(supportsLogPoints, "supportsLogPoints", 1, 'b')
  F(supportsModulesRequest, "supportsModulesRequest", 1, 'b')
  F(supportsReadMemoryRequest, "supportsReadMemoryRequest", 1, 'b')
  F(supportsRestartFrame, "supportsRestartFrame", 1, 'b')
  F(supportsRestartRequest, "supportsRestartRequest", 1, 'b')
  F(supportsSetExpression, "supportsSetExpression", 1, 'b')
  F(supportsSetVariable, "supportsSetVariable", 1, 'b')
  F(supportsSingleThreadExecutionRequests, "supportsSingleThreadExecutionRequests", 1, 'b')
  F(supportsStepBack, "supportsStepBack", 1, 'b')
  F(supportsStepInTargetsRequest, "supportsStepInTargetsRequest", 1, 'b')
  F(supportsSteppingGranularity, "supportsSteppingGranularity", 1, 'b')
  F(supportsTerminateRequest, "supportsTerminateRequest", 1, 'b')
  F(supportsTerminateThreadsRequest, "supportsTerminateThreadsRequest", 1, 'b')
  F(supportsValueFormattingOptions, "supportsValueFormattingOptions", 1, 'b')
  F(supportsWriteMemoryRequest, "supportsWriteMemoryRequest", 1, 'b')
E(InitializeResponse)
S(InitializeRequest, "initialize")
  F(adapterID, "adapterID", 0, 's')
  F(clientID, "clientID", 1, 's')
  F(clientName, "clientName", 1, 's')
  F(columnsStartAt1, "columnsStartAt1", 1, 'b')
  F(linesStartAt1, "linesStartAt1", 1, 'b')
  F(locale, "locale", 1, 's')
  F(pathFormat, "pathFormat", 1, 's')
  F(supportsArgsCanBeInterpretedByShell, "supportsArgsCanBeInterpretedByShell", 1, 'b')
  F(supportsInvalidatedEvent, "supportsInvalidatedEvent", 1, 'b')
  F(supportsMemoryEvent, "supportsMemoryEvent", 1, 'b')
  F(supportsMemoryReferences, "supportsMemoryReferences", 1, 'b')
  F(supportsProgressReporting, "supportsProgressReporting", 1, 'b')
  F(supportsRunInTerminalRequest, "supportsRunInTerminalRequest", 1, 'b')
  F(supportsStartDebuggingRequest, "supportsStartDebuggingRequest", 1, 'b')
  F(supportsVariablePaging, "supportsVariablePaging", 1, 'b')
  F(supportsVariableType, "supportsVariableType", 1, 'b')
E(InitializeRequest)
S(InitializedEvent, "initialized")
E(InitializedEvent)
S(InvalidatedEvent, "invalidated")
  F(areas, "areas", 1, 'a')
  F(stackFrameId, "stackFrameId", 1, 'i')
  F(threadId, "threadId", 1, 'i')
E(InvalidatedEvent)
S(LaunchResponse, "")
E(LaunchResponse)
S(LaunchRequest, "launch")
  F(restart, "__restart", 1, 'v')
  F(noDebug, "noDebug", 1, 'b')
E(LaunchRequest)
S(LoadedSourceEvent, "loadedSource")
  F(reason, "reason", 0, 's')
  F(source, "source", 0, 'o')
E(LoadedSourceEvent)
S(LoadedSourcesResponse, "")
  F(sources, "sources", 0, 'a')
E(LoadedSourcesResponse)
S(LoadedSourcesRequest, "loadedSources")
E(LoadedSourcesRequest)
S(MemoryEvent, "memory")
  F(count, "count", 0, 'i')
  F(memoryReference, "memoryReference", 0, 's')
  F(offset, "offset", 0, 'i')
E(MemoryEvent)
S(Module, "")
  F(addressRange, "addressRange", 1, 's')
  F(dateTimeStamp, "dateTimeStamp", 1, 's')
  F(id, "id", 0, 'v')
  F(isOptimized, "isOptimized", 1, 'b')
  F(isUserCode, "isUserCode", 1, 'b')
  F(name, "name", 0, 's')
  F(path, "path", 1, 's')
  F(symbolFilePath, "symbolFilePath", 1, 's')
  F(symbolStatus, "symbolStatus", 1, 's')
  F(version, "version", 1, 's')
E(Module)
S(ModuleEvent, "module")
  F(module, "module", 0, 'o')
  F(reason, "reason", 0, 's')
E(ModuleEvent)
S(ModulesResponse, "")
  F(modules, "modules", 0, 'a')
  F(totalModules, "totalModules", 1, 'i')
E(ModulesResponse)
S(ModulesRequest, "modules")
  F(moduleCount, "moduleCount", 1, 'i')
  F(startModule, "startModule", 1, 'i')
E(ModulesRequest)
S(NextResponse, "")
E(NextResponse)
S(NextRequest, "next")
  F(granularity, "granularity", 1, 's')
  F(singleThread, "singleThread", 1, 'b')
  F(threadId, "threadId", 0, 'i')
E(NextRequest)
S(OutputEvent, "output")
  F(category, "category", 1, 's')
  F(column, "column", 1, 'i')
  F(data, "data", 1, 'v')
  F(group, "group", 1, 's')
  F(line, "line", 1, 'i')
  F(output, "output", 0, 's')
  F(source, "source", 1, 'o')
  F(variablesReference, "variablesReference", 1, 'i')
E(OutputEvent)
S(PauseResponse, "")
E(PauseResponse)
S(PauseRequest, "pause")
  F(threadId, "threadId", 0, 'i')
E(PauseRequest)
S(ProcessEvent, "process")
  F(isLocalProcess, "isLocalProcess", 1, 'b')
  F(name, "name", 0, 's')
  F(pointerSize, "pointerSize", 1, 'i')
  F(startMethod, "startMethod", 1, 's')
  F(systemProcessId, "systemProcessId", 1, 'i')
E(ProcessEvent)
S(ProgressEndEvent, "progressEnd")
  F(message, "message", 1, 's')
  F(progressId, "progressId", 0, 's')
E(ProgressEndEvent)
S(ProgressStartEvent, "progressStart")
  F(cancellable, "cancellable", 1, 'b')
  F(message, "message", 1, 's')
  F(percentage, "percentage", 1, 'n')
  F(progressId, "progressId", 0, 's')
  F(requestId, "requestId", 1, 'i')
  F(title, "title", 0, 's')
E(ProgressStartEvent)
S(ProgressUpdateEvent, "progressUpdate")
  F(message, "message", 1, 's')
  F(percentage, "percentage", 1, 'n')
  F(progressId, "progressId", 0, 's')
E(ProgressUpdateEvent)
S(ReadMemoryResponse, "")
  F(address, "address", 0, 's')
  F(data, "data", 1, 's')
  F(unreadableBytes, "unreadableBytes", 1, 'i')
E(ReadMemoryResponse)
S(ReadMemoryRequest, "readMemory")
  F(count, "count", 0, 'i')
  F(memoryReference, "memoryReference", 0, 's')
  F(offset, "offset", 1, 'i')
E(ReadMemoryRequest)
S(RestartFrameResponse, "")
E(RestartFrameResponse)
S(RestartFrameRequest, "restartFrame")
  F(frameId, "frameId", 0, 'i')
E(RestartFrameRequest)
S(RestartResponse, "")
E(RestartResponse)
S(RestartRequest, "restart")
  F(arguments, "arguments", 1, 'o')
E(RestartRequest)
S(ReverseContinueResponse, "")
E(ReverseContinueResponse)
S(ReverseContinueRequest, "reverseContinue")
  F(singleThread, "singleThread", 1, 'b')
  F(threadId, "threadId", 0, 'i')
E(ReverseContinueRequest)
S(RunInTerminalResponse, "")
  F(processId, "processId", 1, 'i')
  F(shellProcessId, "shellProcessId", 1, 'i')
E(RunInTerminalResponse)
S(RunInTerminalRequest, "runInTerminal")
  F(args, "args", 0, 'a')
  F(argsCanBeInterpretedByShell, "argsCanBeInterpretedByShell", 1, 'b')
  F(cwd, "cwd", 0, 's')
  F(env, "env", 1, 'o')
  F(kind, "kind", 1, 's')
  F(title, "title", 1, 's')
E(RunInTerminalRequest)
S(Scope, "")
  F(column, "column", 1, 'i')
  F(endColumn, "endColumn", 1, 'i')
  F(endLine, "endLine", 1, 'i')
  F(expensive, "expensive", 0, 'b')
  F(indexedVariables, "indexedVariables", 1, 'i')
  F(line, "line", 1, 'i')
  F(name, "name", 0, 's')
  F(namedVariables, "namedVariables", 1, 'i')
  F(presentationHint, "presentationHint", 1, 's')
  F(source, "source", 1, 'o')
  F(variablesReference, "variablesReference", 0, 'i')
E(Scope)
S(ScopesResponse, "")
  F(scopes, "scopes", 0, 'a')
E(ScopesResponse)
S(ScopesRequest, "scopes")
  F(frameId, "frameId", 0, 'i')
E(ScopesRequest)
S(SetBreakpointsResponse, "")
  F(breakpoints, "breakpoints", 0, 'a')
E(SetBreakpointsResponse)
S(SourceBreakpoint, "")
  F(column, "column", 1, 'i')
  F(condition, "condition", 1, 's')
  F(hitCondition, "hitCondition", 1, 's')
  F(line, "line", 0, 'i')
  F(logMessage, "logMessage", 1, 's')
  F(mode, "mode", 1, 's')
E(SourceBreakpoint)
S(SetBreakpointsRequest, "setBreakpoints")
  F(breakpoints, "breakpoints", 1, 'a')
  F(lines, "lines", 1, 'a')
  F(source, "source", 0, 'o')
  F(sourceModified, "sourceModified", 1, 'b')
E(SetBreakpointsRequest)
S(SetDataBreakpointsResponse, "")
  F(breakpoints, "breakpoints", 0, 'a')
E(SetDataBreakpointsResponse)
S(DataBreakpoint, "")
  F(accessType, "accessType", 1, 's')
  F(condition, "condition", 1, 's')
  F(dataId, "dataId", 0, 's')
  F(hitCondition, "hitCondition", 1, 's')
E(DataBreakpoint)
S(SetDataBreakpointsRequest, "setDataBreakpoints")
  F(breakpoints, "breakpoints", 0, 'a')
E(SetDataBreakpointsRequest)
S(SetExceptionBreakpointsResponse, "")
  F(breakpoints, "breakpoints", 1, 'a')
E(SetExceptionBreakpointsResponse)
S(ExceptionPathSegment, "")
  F(names, "names", 0, 'a')
  F(negate, "negate", 1, 'b')
E(ExceptionPathSegment)
S(ExceptionOptions, "")
  F(breakMode, "breakMode", 0, 's')
  F(path, "path", 1, 'a')
E(ExceptionOptions)
S(ExceptionFilterOptions, "")
  F(condition, "condition", 1, 's')
  F(filterId, "filterId", 0, 's')
  F(mode, "mode", 1, 's')
E(ExceptionFilterOptions)
S(SetExceptionBreakpointsRequest, "setExceptionBreakpoints")
  F(exceptionOptions, "exceptionOptions", 1, 'a')
  F(filterOptions, "filterOptions", 1, 'a')
  F(filters, "filters", 0, 'a')
E(SetExceptionBreakpointsRequest)
S(SetExpressionResponse, "")
  F(indexedVariables, "indexedVariables", 1, 'i')
  F(memoryReference, "memoryReference", 1, 's')
  F(namedVariables, "namedVariables", 1, 'i')
  F(presentationHint, "presentationHint", 1, 'o')
  F(type, "type", 1, 's')
  F(value, "value", 0, 's')
  F(variablesReference, "variablesReference", 1, 'i')
E(SetExpressionResponse)
S(SetExpressionRequest, "setExpression")
  F(expression, "expression", 0, 's')
  F(format, "format", 1, 'o')
  F(frameId, "frameId", 1, 'i')
  F(value, "value", 0, 's')
E(SetExpressionRequest)
S(SetFunctionBreakpointsResponse, "")
  F(breakpoints, "breakpoints", 0, 'a')
E(SetFunctionBreakpointsResponse)
S(FunctionBreakpoint, "")
  F(condition, "condition", 1, 's')
  F(hitCondition, "hitCondition", 1, 's')
  F(name, "name", 0, 's')
E(FunctionBreakpoint)
S(SetFunctionBreakpointsRequest, "setFunctionBreakpoints")
  F(breakpoints, "breakpoints", 0, 'a')
E(SetFunctionBreakpointsRequest)
S(SetInstructionBreakpointsResponse, "")
  F(breakpoints, "breakpoints", 0, 'a')
E(SetInstructionBreakpointsResponse)
S(InstructionBreakpoint, "")
  F(condition, "condition", 1, 's')
  F(hitCondition, "hitCondition", 1, 's')
  F(instructionReference, "instructionReference", 0, 's')
  F(mode, "mode", 1, 's')
  F(offset, "offset", 1, 'i')
E(InstructionBreakpoint)
S(SetInstructionBreakpointsRequest, "setInstructionBreakpoints")
  F(breakpoints, "breakpoints", 0, 'a')
E(SetInstructionBreakpointsRequest)
S(SetVariableResponse, "")
  F(indexedVariables, "indexedVariables", 1, 'i')
  F(memoryReference, "memoryReference", 1, 's')
  F(namedVariables, "namedVariables", 1, 'i')
  F(type, "type", 1, 's')
  F(value, "value", 0, 's')
  F(variablesReference, "variablesReference", 1, 'i')
E(SetVariableResponse)
S(SetVariableRequest, "setVariable")
  F(format, "format", 1, 'o')
  F(name, "name", 0, 's')
  F(value, "value", 0, 's')
  F(variablesReference, "variablesReference", 0, 'i')
E(SetVariableRequest)
S(SourceResponse, "")
  F(content, "content", 0, 's')
  F(mimeType, "mimeType", 1, 's')
E(SourceResponse)
S(SourceRequest, "source")
  F(source, "source", 1, 'o')
  F(sourceReference, "sourceReference", 0, 'i')
E(SourceRequest)
S(StackFrame, "")
  F(canRestart, "canRestart", 1, 'b')
  F(column, "column", 0, 'i')
  F(endColumn, "endColumn", 1, 'i')
  F(endLine, "endLine", 1, 'i')
  F(id, "id", 0, 'i')
  F(instructionPointerReference, "instructionPointerReference", 1, 's')
  F(line, "line", 0, 'i')
  F(moduleId, "moduleId", 1, 'v')
  F(name, "name", 0, 's')
  F(presentationHint, "presentationHint", 1, 's')
  F(source, "source", 1, 'o')
E(StackFrame)
S(StackTraceResponse, "")
  F(stackFrames, "stackFrames", 0, 'a')
  F(totalFrames, "totalFrames", 1, 'i')
E(StackTraceResponse)
S(StackFrameFormat, "")
  B(ValueFormat)
  F(includeAll, "includeAll", 1, 'b')
  F(line, "line", 1, 'b')
  F(module, "module", 1, 'b')
  F(parameterNames, "parameterNames", 1, 'b')
  F(parameterTypes, "parameterTypes", 1, 'b')
  F(parameterValues, "parameterValues", 1, 'b')
  F(parameters, "parameters", 1, 'b')
E(StackFrameFormat)
S(StackTraceRequest, "stackTrace")
  F(format, "format", 1, 'o')
  F(levels, "levels", 1, 'i')
  F(startFrame, "startFrame", 1, 'i')
  F(threadId, "threadId", 0, 'i')
E(StackTraceRequest)
S(StartDebuggingResponse, "")
E(StartDebuggingResponse)
S(StartDebuggingRequest, "startDebugging")
  F(configuration, "configuration", 0, 'o')
  F(request, "request", 0, 's')
E(StartDebuggingRequest)
S(StepBackResponse, "")
E(StepBackResponse)
S(StepBackRequest, "stepBack")
  F(granularity, "granularity", 1, 's')
  F(singleThread, "singleThread", 1, 'b')
  F(threadId, "threadId", 0, 'i')
E(StepBackRequest)
S(StepInResponse, "")
E(StepInResponse)
S(StepInRequest, "stepIn")
  F(granularity, "granularity", 1, 's')
  F(singleThread, "singleThread", 1, 'b')
  F(targetId, "targetId", 1, 'i')
  F(threadId, "threadId", 0, 'i')
E(StepInRequest)
S(StepInTarget, "")
  F(column, "column", 1, 'i')
  F(endColumn, "endColumn", 1, 'i')
  F(endLine, "endLine", 1, 'i')
  F(id, "id", 0, 'i')
  F(label, "label", 0, 's')
  F(line, "line", 1, 'i')
E(StepInTarget)
S(StepInTargetsResponse, "")
  F(targets, "targets", 0, 'a')
E(StepInTargetsResponse)
S(StepInTargetsRequest, "stepInTargets")
  F(frameId, "frameId", 0, 'i')
E(StepInTargetsRequest)
S(StepOutResponse, "")
E(StepOutResponse)
S(StepOutRequest, "stepOut")
  F(granularity, "granularity", 1, 's')
  F(singleThread, "singleThread", 1, 'b')
  F(threadId, "threadId", 0, 'i')
E(StepOutRequest)
S(StoppedEvent, "stopped")
  F(allThreadsStopped, "allThreadsStopped", 1, 'b')
  F(description, "description", 1, 's')
  F(hitBreakpointIds, "hitBreakpointIds", 1, 'a')
  F(preserveFocusHint, "preserveFocusHint", 1, 'b')
  F(reason, "reason", 0, 's')
  F(text, "text", 1, 's')
  F(threadId, "threadId", 1, 'i')
E(StoppedEvent)
S(TerminateResponse, "")
E(TerminateResponse)
S(TerminateRequest, "terminate")
  F(restart, "restart", 1, 'b')
E(TerminateRequest)
S(TerminateThreadsResponse, "")
E(TerminateThreadsResponse)
S(TerminateThreadsRequest, "terminateThreads")
  F(threadIds, "threadIds", 1, 'a')
E(TerminateThreadsRequest)
S(TerminatedEvent, "terminated")
  F(restart, "restart", 1, 'v')
E(TerminatedEvent)
S(ThreadEvent, "thread")
  F(reason, "reason", 0, 's')
  F(threadId, "threadId", 0, 'i')
E(ThreadEvent)
S(Thread, "")
  F(id, "id", 0, 'i')
  F(name, "name", 0, 's')
E(Thread)
S(ThreadsResponse, "")
  F(threads, "threads", 0, 'a')
E(ThreadsResponse)
S(ThreadsRequest, "threads")
E(ThreadsRequest)
S(Variable, "")
  F(evaluateName, "evaluateName", 1, 's')
  F(indexedVariables, "indexedVariables", 1, 'i')
  F(memoryReference, "memoryReference", 1, 's')
  F(name, "name", 0, 's')
  F(namedVariables, "namedVariables", 1, 'i')
  F(presentationHint, "presentationHint", 1, 'o')
  F(type, "type", 1, 's')
  F(value, "value", 0, 's')
  F(variablesReference, "variablesReference", 0, 'i')
E(Variable)
S(VariablesResponse, "")
  F(variables, "variables", 0, 'a')
E(VariablesResponse)
S(VariablesRequest, "variables")
  F(count, "count", 1, 'i')
  F(filter, "filter", 1, 's')
  F(format, "format", 1, 'o')
  F(start, "start", 1, 'i')
  F(variablesReference, "variablesReference", 0, 'i')
E(VariablesRequest)
S(WriteMemoryResponse, "")
  F(bytesWritten, "bytesWritten", 1, 'i')
  F(offset, "offset", 1, 'i')
E(WriteMemoryResponse)
S(WriteMemoryRequest, "writeMemory")
  F(allowPartial, "allowPartial", 1, 'b')
  F(data, "data", 0, 's')
  F(memoryReference, "memoryReference", 0, 's')
  F(offset, "offset", 1, 'i')
E(WriteMemoryRequest)
