"""The messages of the protocol: their members, the fields that hold them, and
the numbers and words of the enumerations (Language Server Protocol 3.17, the
clangd extensions this server took over, and nixd's own messages to its workers).

key          a required member, held in the field of the same name
key?         may be missing when read; left out when unset, when written
key-         may be missing or null when read
key~         may be missing or broken when read
key=f+g      held in other fields (all of them when read, one or more when written)
key='word'   always written as this word (or number)
key?='w@f'   written as this word when the field f is set
key='v@f=n|w@f=m'   written as v when the field f is n, as w when it is m
"""

READ = {
    "lspserver::ASTParams": "textDocument range?",
    "lspserver::ApplyWorkspaceEditResponse": "applied failureReason?",
    "lspserver::CallHierarchyIncomingCallsParams": "item",
    "lspserver::CallHierarchyItem": "name kind uri range selectionRange data-",
    "lspserver::CallHierarchyOutgoingCallsParams": "item",
    "lspserver::ChangeAnnotation": "label needsConfirmation? description?",
    "lspserver::ClangdCompileCommand": "workingDirectory compilationCommand",
    "lspserver::CodeAction": "title command~ edit~ isPreferred~ kind~ diagnostics~ data?",
    "lspserver::CodeActionContext": "only~ diagnostics",
    "lspserver::CodeActionParams": "textDocument range context",
    "lspserver::CompletionContext": "triggerKind triggerCharacter-",
    "lspserver::CompletionItem": "label kind? detail? documentation? sortText? "
        "filterText? insertText? insertTextFormat? textEdit? additionalTextEdits? data?",
    "lspserver::CompletionParams": "limit- position textDocument context?",
    "lspserver::ConfigurationSettings": "compilationDatabaseChanges-",
    "lspserver::Diagnostic": "range message severity- category- code- source- data?",
    "lspserver::DidChangeConfigurationParams": "settings",
    "lspserver::DidChangeTextDocumentParams": "textDocument contentChanges wantDiagnostics? forceRebuild-",
    "lspserver::DidChangeWatchedFilesParams": "changes",
    "lspserver::DidCloseTextDocumentParams": "textDocument",
    "lspserver::DidOpenTextDocumentParams": "textDocument",
    "lspserver::DidSaveTextDocumentParams": "textDocument",
    "lspserver::DocumentFormattingParams": "textDocument",
    "lspserver::DocumentLinkParams": "textDocument",
    "lspserver::DocumentOnTypeFormattingParams": "textDocument position ch",
    "lspserver::DocumentRangeFormattingParams": "textDocument range",
    "lspserver::DocumentSymbolParams": "textDocument",
    "lspserver::ExecuteCommandParams": "command arguments?=argument",
    "lspserver::FileEvent": "uri type",
    "lspserver::FoldingRangeParams": "textDocument",
    "lspserver::InitializationOptions": ".?=ConfigSettings compilationDatabasePath? "
        "fallbackFlags- clangdFileStatus-=FileStatus",
    "lspserver::InitializeParams": "rootUri~ rootPath~ initializationOptions~ "
        "trace~ processId~ capabilities~=capabilities+rawCapabilities",
    "lspserver::InlayHintsParams": "textDocument range?",
    "lspserver::Location": "uri range",
    "lspserver::MarkupContent": "kind value?",
    "lspserver::NoParams": "",
    "lspserver::Position": "line character",
    "lspserver::Range": "start end",
    "lspserver::ReferenceContext": "includeDeclaration?",
    "lspserver::ReferenceParams": "textDocument position context?",
    "lspserver::RenameParams": "textDocument position newName",
    "lspserver::ResolveTypeHierarchyItemParams": "item resolve- direction-",
    "lspserver::SelectionRangeParams": "textDocument positions",
    "lspserver::SemanticTokensDeltaParams": "textDocument previousResultId",
    "lspserver::SemanticTokensParams": "textDocument",
    "lspserver::ShowDocumentResult": "success",
    "lspserver::TextDocumentContentChangeEvent": "range? rangeLength? text",
    "lspserver::TextDocumentEdit": "textDocument edits",
    "lspserver::TextDocumentIdentifier": "uri",
    "lspserver::TextDocumentItem": "uri languageId version? text",
    "lspserver::TextDocumentPositionParams": "textDocument position",
    "lspserver::TextEdit": "range newText annotationId?",
    "lspserver::TweakArgs": "file selection tweakID",
    "lspserver::TypeHierarchyItem": "name kind uri range selectionRange "
        "detail- deprecated- parents- children- data-",
    "lspserver::TypeHierarchyItem::ResolveParams": "parents-",
    "lspserver::TypeHierarchyPrepareParams": "textDocument position resolve- direction-",
    "lspserver::VersionedTextDocumentIdentifier": "uri version?",
    "lspserver::WorkspaceEdit": "changes? documentChanges? changeAnnotations?",
    "lspserver::WorkspaceSymbolParams": "query limit-",
    "nixd::AttrPathCompleteParams": "Scope Prefix",
    "nixd::AttrPathInfoResponse": "Meta PackageDesc? ValueDesc?",
    "nixd::OptionDescription": "Description? Declarations? Definitions? Example? Default? Type?",
    "nixd::OptionField": "Description? Name?",
    "nixd::OptionType": "Description? Name?",
    "nixd::PackageDescription": "Name? PName? Version? Description? LongDescription? Position? Homepage?",
    "nixd::ValueDescription": "arity=Arity doc=Doc args=Args",
    "nixd::ValueMeta": "Type Location?",
    "nixd::rpc::ExprValueParams": "ExprID",
    "nixd::rpc::ExprValueResponse": "ResultKind ValueID ValueKind",
    "nixd::rpc::RegisterBCParams": "Shm BasePath CachePath Size",
}

WRITE = {
    "lspserver::ASTNode": "kind role children? detail? arcana? range?",
    "lspserver::ApplyWorkspaceEditParams": "edit",
    "lspserver::CallHierarchyIncomingCall": "from fromRanges",
    "lspserver::CallHierarchyItem": "uri selectionRange range kind name tags? detail? data?",
    "lspserver::CallHierarchyOutgoingCall": "fromRanges to",
    "lspserver::ChangeAnnotation": "label needsConfirmation? description?",
    "lspserver::CodeAction": "title kind? diagnostics? isPreferred?='1@isPreferred' edit? command? data?",
    "lspserver::CodeDescription": "href",
    "lspserver::Command": "title command arguments?=argument",
    "lspserver::CompletionItem": "score data label kind? detail? documentation? "
        "sortText? filterText? insertText? insertTextFormat? textEdit? additionalTextEdits? deprecated?",
    "lspserver::CompletionList": "items isIncomplete",
    "lspserver::ConfigurationItem": "scopeUri? section?",
    "lspserver::ConfigurationParams": "items",
    "lspserver::CreateFile": "kind='create' uri options? annotationId?",
    "lspserver::CreateFileOptions": "overwrite? ignoreIfExists?",
    "lspserver::DeleteFile": "kind='delete' uri options? annotationId?",
    "lspserver::DeleteFileOptions": "recursive? ignoreIfNotExists?",
    "lspserver::Diagnostic": "severity range message category? codeActions? "
        "code? codeDescription? source? relatedInformation? data? tags?",
    "lspserver::DiagnosticRelatedInformation": "location message",
    "lspserver::DocumentHighlight": "range kind",
    "lspserver::DocumentLink": "target range",
    "lspserver::DocumentSymbol": "range kind name selectionRange detail? children? deprecated?='1@deprecated'",
    "lspserver::FileStatus": "uri state",
    "lspserver::FoldingRange": "endLine startLine startCharacter? endCharacter? kind?",
    "lspserver::Hover": "contents range?",
    "lspserver::InactiveRegionsParams": "textDocument=TextDocument regions=InactiveRegions",
    "lspserver::InlayHint": "position paddingLeft paddingRight label kind?",
    "lspserver::Location": "uri range",
    "lspserver::MarkupContent": "kind='plaintext@kind=0|markdown@kind=1' value",
    "lspserver::NoParams": "",
    "lspserver::ParameterInformation": "label=labelOffsets.first+labelOffsets.second+labelString "
        "documentation?",
    "lspserver::Position": "character line",
    "lspserver::PublishDiagnosticsParams": "uri diagnostics version?",
    "lspserver::Range": "end start",
    "lspserver::ReferenceLocation": "uri range containerName?",
    "lspserver::RenameFile": "newUri kind='rename' oldUri options? annotationId?",
    "lspserver::RenameFileOptions": "overwrite? ignoreIfExists?",
    "lspserver::SelectionRange": "range parent?",
    "lspserver::SemanticTokens": "data=tokens resultId",
    "lspserver::SemanticTokensEdit": "start=5*startToken deleteCount=5*deleteTokens data=tokens",
    "lspserver::SemanticTokensOrDelta": "resultId edits? data?=tokens",
    "lspserver::ShowDocumentParams": "uri=externalUri+uri external? takeFocus? selection?",
    "lspserver::ShowMessageParams": "type message",
    "lspserver::SignatureHelp": "signatures activeParameter activeSignature",
    "lspserver::SignatureInformation": "label parameters documentation?",
    "lspserver::SymbolInformation": "containerName kind name location score?",
    "lspserver::TextDocumentEdit": "edits textDocument",
    "lspserver::TextDocumentIdentifier": "uri",
    "lspserver::TextEdit": "range newText annotationId?",
    "lspserver::TweakArgs": "tweakID file selection",
    "lspserver::TypeHierarchyItem": "data uri selectionRange range kind name detail?",
    "lspserver::TypeHierarchyItem::ResolveParams": "parents?",
    "lspserver::VersionedTextDocumentIdentifier": "uri version",
    "lspserver::WorkDoneProgressBegin": "title kind='begin' cancellable?='1@cancellable' percentage?='0@percentage'",
    "lspserver::WorkDoneProgressCreateParams": "token",
    "lspserver::WorkDoneProgressEnd": "kind='end' message?",
    "lspserver::WorkDoneProgressReport": "kind='report' cancellable? message? percentage?",
    "lspserver::WorkspaceEdit": "changes? documentChanges? changeAnnotations?",
    "nixd::AttrPathCompleteParams": "Prefix Scope",
    "nixd::AttrPathInfoResponse": "PackageDesc ValueDesc Meta",
    "nixd::OptionDescription": "Description Type Example Declarations Default Definitions",
    "nixd::OptionField": "Description Name",
    "nixd::OptionType": "Description Name",
    "nixd::PackageDescription": "Description Homepage Position PName Version LongDescription Name",
    "nixd::ValueDescription": "args=Args doc=Doc arity=Arity",
    "nixd::ValueMeta": "Type Location",
    "nixd::rpc::ExprValueParams": "ExprID",
    "nixd::rpc::ExprValueResponse": "ValueKind ResultKind ValueID",
    "nixd::rpc::RegisterBCParams": "BasePath CachePath Size Shm",
}

# fields of the capabilities, where they come from, and whether only the presence counts
CAPABILITIES = """
TheiaSemanticHighlighting textDocument.semanticHighlightingCapabilities.semanticHighlighting
InactiveRegions textDocument.inactiveRegionsCapabilities.inactiveRegions
SemanticTokens textDocument.semanticTokens !
DiagnosticCategory textDocument.publishDiagnostics.categorySupport
DiagnosticFixes textDocument.publishDiagnostics.codeActionsInline
DiagnosticRelatedInformation textDocument.publishDiagnostics.relatedInformation
ReferenceContainer textDocument.references.container
CompletionSnippets textDocument.completion.completionItem.snippetSupport
CompletionDocumentationFormat textDocument.completion.completionItem.documentationFormat
CompletionItemKinds textDocument.completion.completionItemKind.valueSet
CompletionFixes textDocument.completion.editsNearCursor
CodeActionStructure textDocument.codeAction.codeActionLiteralSupport !
HierarchicalDocumentSymbol textDocument.documentSymbol.hierarchicalDocumentSymbolSupport
HoverContentFormat textDocument.hover.contentFormat
HasSignatureHelp textDocument.signatureHelp !
OffsetsInSignatureHelp textDocument.signatureHelp.signatureInformation.parameterInformation.labelOffsetSupport
SignatureHelpDocumentationFormat textDocument.signatureHelp.signatureInformation.documentationFormat
LineFoldingOnly textDocument.foldingRange.lineFoldingOnly
RenamePrepareSupport textDocument.rename.prepareSupport
WorkspaceSymbolKinds workspace.symbol.symbolKind.valueSet
WorkspaceConfiguration workspace.configuration
SemanticTokenRefreshSupport workspace.semanticTokens.refreshSupport
DocumentChanges workspace.workspaceEdit.documentChanges
ChangeAnnotation workspace.workspaceEdit.changeAnnotationSupport !
WorkDoneProgress window.workDoneProgress
ImplicitProgressCreation window.implicitWorkDoneProgressCreate
CancelsStaleRequests general.staleRequestSupport.cancel
offsetEncoding offsetEncoding
"""

# changes of documents, told apart by the word of their member 'kind'
CHANGES = {
    "create": "CreateFile::uri=uri CreateFileOptions::overwrite=options.overwrite "
              "CreateFileOptions::ignoreIfExists=options.ignoreIfExists CreateFile::annotationId=annotationId",
    "rename": "RenameFile::oldUri=oldUri RenameFile::newUri=newUri RenameFileOptions::overwrite=options.overwrite "
              "RenameFileOptions::ignoreIfExists=options.ignoreIfExists RenameFile::annotationId=annotationId",
    "delete": "DeleteFile::uri=uri DeleteFileOptions::recursive=options.recursive "
              "DeleteFileOptions::ignoreIfNotExists=options.ignoreIfNotExists DeleteFile::annotationId=annotationId",
}

# numbers that are read: the smallest and the largest
RANGES = {"SymbolKind": (1, 26), "CompletionItemKind": (1, 25), "FileChangeType": (1, 3), "TypeHierarchyDirection": (0, 2)}

# words that are read, and what they stand for
WORDS = {
    "TraceLevel": {"off": "Off", "messages": "Messages", "verbose": "Verbose"},
    "MarkupKind": {"plaintext": "PlainText", "markdown": "Markdown"},
    "OffsetEncoding": {"utf-8": "UTF8", "utf-16": "UTF16", "utf-32": "UTF32", None: "UnsupportedEncoding"},
}

# what an enumeration is written as: its number, or what is listed
WRITTEN = {
    "DiagnosticTag": None, "SymbolTag": None, "MessageType": None,
    "InlayHintKind": {"Type": 1, "Parameter": 2, "Designator": None},
    "OffsetEncoding": {"UTF8": "utf-8", "UTF16": "utf-16", "UTF32": "utf-32"},
}

# numbers of the enumerations
NUMBERS = {
    "CompletionItemKind":
        "Missing 0, Text 1, Method 2, Function 3, Constructor 4, Field 5, Variable 6, Class 7, Interface 8, "
        "Module 9, Property 10, Unit 11, Value 12, Enum 13, Keyword 14, Snippet 15, Color 16, File 17, "
        "Reference 18, Folder 19, EnumMember 20, Constant 21, Struct 22, Event 23, Operator 24, TypeParameter "
        "25",
    "CompletionTriggerKind":
        "Invoked 1, TriggerCharacter 2, TriggerTriggerForIncompleteCompletions 3",
    "DiagnosticTag":
        "Unnecessary 1, Deprecated 2",
    "DocumentHighlightKind":
        "Text 1, Read 2, Write 3",
    "ErrorCode":
        "ParseError -32700, InvalidRequest -32600, MethodNotFound -32601, InvalidParams -32602, InternalError "
        "-32603, ServerNotInitialized -32002, UnknownErrorCode -32001, RequestCancelled -32800, "
        "ContentModified -32801",
    "FileChangeType":
        "Created 1, Changed 2, Deleted 3",
    "InsertTextFormat":
        "Missing 0, PlainText 1, Snippet 2",
    "MessageType":
        "Error 1, Warning 2, Info 3, Log 4",
    "SymbolKind":
        "File 1, Module 2, Namespace 3, Package 4, Class 5, Method 6, Property 7, Field 8, Constructor 9, "
        "Enum 10, Interface 11, Function 12, Variable 13, Constant 14, String 15, Number 16, Boolean 17, "
        "Array 18, Object 19, Key 20, Null 21, EnumMember 22, Struct 23, Event 24, Operator 25, TypeParameter "
        "26",
    "SymbolTag":
        "Deprecated 1",
    "TextDocumentSyncKind":
        "None 0, Full 1, Incremental 2",
    "TypeHierarchyDirection":
        "Children 0, Parents 1, Both 2",
}
