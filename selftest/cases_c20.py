from cases_p2 import bug as _b, same as _s, PYF, CS, JSF, JVF


def bug(t, *e):
    _b('C20', t, *e)


def same(t, *e):
    _s('C20', t, *e)


bug('py nul lost', (PYF, 'startIndex = i + 1', 'startIndex = i + 2'))
bug('py nul token lost', (PYF, '            tokens.append(Token("\\0", Token.UNKNOWN))\n', ''))
bug('py rest lost', (PYF, '        tokens = tokens + self.__splitTokens(text[startIndex:])\n', '        if startIndex == 0:\n            tokens = tokens + self.__splitTokens(text[startIndex:])\n'))
bug('py order', (PYF, 'tokens = tokens + self.__splitTokens(text[startIndex:i])', 'tokens = self.__splitTokens(text[startIndex:i]) + tokens'))
bug('py token slice', (PYF, 'tokenText = uniText[position:position + tokenLen.value]', 'tokenText = uniText[position:tokenLen.value]'))
bug('py token advance', (PYF, 'position = position + tokenLen.value\n            textLen = textLen - tokenLen.value\n        return result', 'position = position + len(tokenText.strip())\n            textLen = textLen - tokenLen.value\n        return result'))
bug('py sentence len', (PYF, 'textLen = textLen - sentenceLen.value', 'textLen = textLen - sentenceLen.value - 1'))
bug('py sentence loop', (PYF, 'sentenceLen = c_size_t()\n        position = 0\n        while textLen > 0:', 'sentenceLen = c_size_t()\n        position = 0\n        while textLen > 1:'))
bug('py sentence pos', (PYF, 'uniText[position:],', 'uniText,'))
bug('py offset', (PYF, 'offset = offset + len(paragraph) + 1', 'offset = offset + len(paragraph)'))
bug('py offset acc', (PYF, 'offset = offset + len(paragraph) + 1', 'offset = len(paragraph) + 1'))
bug('py splitlines', (PYF, 'in textUnicode.split("\\n"):', 'in textUnicode.splitlines():'))
bug('py startpos', (PYF, 'gError.startPos = offset + gError.startPos', 'gError.startPos = gError.startPos'))
bug('java offset', (JVF, 'offset += paragraph.length() + 1;', 'offset += s2n(paragraph).length;'))
bug('java split', (JVF, 'text.replace("\\r", "\\n").split("\\\\n")', 'text.split("\\\\r?\\\\n")'))
bug('java bytes', (JVF, 'bytesStart += tokenBytes;', 'bytesStart += tokenLen;'))
bug('java token pos', (JVF, 'lastStart + textStart)', 'textStart)'))
bug('java special pos', (JVF, 'lastStart = i + 1;', 'lastStart = i;'))
bug('java len', (JVF, 'final int paragraphLen = s2n(paragraph).length - 1;', 'final int paragraphLen = paragraph.length();'))
bug('java skip', (JVF, 'int skipErrors = 0;', 'int skipErrors = 1;'))
bug('cs regex', (CS, "text.Replace(\"\\r\", \"\\n\").Split('\\n')", 'System.Text.RegularExpressions.Regex.Split(text, "\\\\r?\\\\n")'))
bug('cs substring', (CS, 'text.Substring(lastStart, i - lastStart)', 'text.Substring(lastStart, i)'))
bug('cs sentence', (CS, 'text = text.Substring(sentenceLen);', 'text = text.Substring(sentenceLen).TrimStart();'))
bug('js bytes', (JSF, 'textLen -= sentenceLenBytes;', 'textLen -= sentenceLen;'))
bug('js ptr', (JSF, 'textBytesPtr += sentenceLenBytes;', 'textBytesPtr += sentenceLen;'))
bug('js replace', (JSF, 'text.replace(/\\r/g, "\\n").split("\\n")', 'text.split(/\\r?\\n/)'))
bug('js nul', (JSF, 'tokensNonNull(text.substring(lastStart, i))', 'tokensNonNull(text.substring(lastStart, i + 1))'))
same('py find while', (PYF, '''        while True:
            i = text.find("\\0", startIndex)
            if i == -1:
                break
            tokens = tokens + self.__splitTokens(text[startIndex:i])
            tokens.append(Token("\\0", Token.UNKNOWN))
            startIndex = i + 1
''', '''        i = text.find("\\0")
        while i >= 0:
            tokens.extend(self.__splitTokens(text[startIndex:i]))
            tokens.append(Token("\\0", Token.UNKNOWN))
            startIndex = i + 1
            i = text.find("\\0", startIndex)
'''))
same('py rest guard', (PYF, '        tokens = tokens + self.__splitTokens(text[startIndex:])\n', '        if startIndex < len(text):\n            tokens = tokens + self.__splitTokens(text[startIndex:])\n'))
same('py slice', (PYF, 'uniText[position:position + sentenceLen.value]', 'uniText[position:][:sentenceLen.value]'))
same('py aug', (PYF, 'offset = offset + len(paragraph) + 1', 'offset += 1 + len(paragraph)'))
same('py startpos', (PYF, 'gError.startPos = offset + gError.startPos', 'gError.startPos += offset'))
same('py enumerate', (PYF, 'for paragraph in textUnicode.split("\\n"):', 'paragraphs = textUnicode.split("\\n")\n        for paragraph in paragraphs:'))
same('java rest', (JVF, 'offset += paragraph.length() + 1;', 'offset += paragraph.length();\n            offset++;'))
same('java for', (JVF, 'offset += paragraph.length() + 1;', 'offset = offset + paragraph.length() + 1;'))
same('js slice', (JSF, 'tokensNonNull(text.substring(lastStart, i))', 'tokensNonNull(text.slice(lastStart, i))'))
same('cs loop', (CS, 'text.Substring(lastStart, i - lastStart)', 'text.Substring(lastStart).Substring(0, i - lastStart)'))

same('py helper advance', (PYF, '''            tokenText = uniText[position:position + tokenLen.value]
            result.append(Token(tokenText, tokenType))
            position = position + tokenLen.value
            textLen = textLen - tokenLen.value
''', '''            n = tokenLen.value
            end = position + n
            result.append(Token(uniText[position:end], tokenType))
            position = end
            textLen -= n
'''))
same('py sentence reorder', (PYF, '''            position = position + sentenceLen.value
            textLen = textLen - sentenceLen.value
''', '''            textLen = textLen - sentenceLen.value
            position = len(uniText) - textLen
'''))
same('py while position', (PYF, '''        position = 0
        while textLen > 0:
            tokenType''', '''        position = 0
        while position < len(uniText):
            tokenType'''))
same('py while not zero', (PYF, '''        position = 0
        while textLen > 0:
            tokenType''', '''        position = 0
        while textLen:
            tokenType'''))
same('py paragraph errors extend', (PYF, 'errorList = errorList + self.__grammarParagraph(paragraph, offset, language)', 'errorList.extend(self.__grammarParagraph(paragraph, offset, language))'))
same('py paragraph index', (PYF, '''        for paragraph in textUnicode.split("\\n"):
            errorList = errorList + self.__grammarParagraph(paragraph, offset, language)
            offset = offset + len(paragraph) + 1
''', '''        paragraphs = textUnicode.split("\\n")
        i = 0
        while i < len(paragraphs):
            errorList = errorList + self.__grammarParagraph(paragraphs[i], offset, language)
            offset = offset + len(paragraphs[i]) + 1
            i = i + 1
'''))
same('py range', (PYF, '''        for paragraph in textUnicode.split("\\n"):
''', '''        paragraphs = textUnicode.split("\\n")
        for i in range(len(paragraphs)):
            paragraph = paragraphs[i]
'''))
same('py enumerate2', (PYF, '''        for paragraph in textUnicode.split("\\n"):
''', '''        for number, paragraph in enumerate(textUnicode.split("\\n")):
'''))
same('py empty paragraph', (PYF, '            errorList = errorList + self.__grammarParagraph(paragraph, offset, language)\n', '            if paragraph:\n                errorList = errorList + self.__grammarParagraph(paragraph, offset, language)\n'))
same('py count', (PYF, '''        skipErrors = 0
        errorList = []
        while True:
''', '''        errorList = []
        skipErrors = 0
        while skipErrors >= 0:
'''))
same('py skip is len', (PYF, '                skipErrors,\n', '                len(errorList),\n'))
same('py empty text', (PYF, '        startIndex = 0\n        tokens = []\n', '        if not text:\n            return []\n        startIndex = 0\n        tokens = []\n'))
same('py split nul', (PYF, '''        startIndex = 0
        tokens = []
        while True:
            i = text.find("\\0", startIndex)
            if i == -1:
                break
            tokens = tokens + self.__splitTokens(text[startIndex:i])
            tokens.append(Token("\\0", Token.UNKNOWN))
            startIndex = i + 1
        tokens = tokens + self.__splitTokens(text[startIndex:])
        return tokens
''', '''        tokens = []
        for number, part in enumerate(text.split("\\0")):
            if number > 0:
                tokens.append(Token("\\0", Token.UNKNOWN))
            tokens = tokens + self.__splitTokens(part)
        return tokens
'''))
same('py else', (PYF, '''            if i == -1:
                break
            tokens = tokens + self.__splitTokens(text[startIndex:i])
            tokens.append(Token("\\0", Token.UNKNOWN))
            startIndex = i + 1
        tokens = tokens + self.__splitTokens(text[startIndex:])
        return tokens
''', '''            if i == -1:
                return tokens + self.__splitTokens(text[startIndex:])
            tokens = tokens + self.__splitTokens(text[startIndex:i]) + [Token("\\0", Token.UNKNOWN)]
            startIndex = i + 1
'''))
same('java while', (JVF, 'for (String paragraph : text.replace("\\r", "\\n").split("\\\\n")) {\n            appendErrorsFromParagraph(errorList, paragraph, offset, language);', 'String[] paragraphs = text.replace(\'\\r\', \'\\n\').split("\\n");\n        for (int p = 0; p < paragraphs.length; p++) {\n            final String paragraph = paragraphs[p];\n            appendErrorsFromParagraph(errorList, paragraph, offset, language);'))
same('java split class', (JVF, 'text.replace("\\r", "\\n").split("\\\\n")', 'text.split("[\\\\r\\\\n]")'))
same('java helper', (JVF, 'offset += paragraph.length() + 1;', 'offset = nextOffset(offset, paragraph);'), (JVF, '    private void appendErrorsFromParagraph(', '    private static int nextOffset(int offset, String paragraph) {\n        return offset + paragraph.length() + 1;\n    }\n\n    private void appendErrorsFromParagraph('))
same('java bytes helper', (JVF, 's2n(tokenText).length - 1;', 'utf8Length(tokenText);'), (JVF, '    private void appendErrorsFromParagraph(', '    private static int utf8Length(String s) {\n        return s2n(s).length - 1;\n    }\n\n    private void appendErrorsFromParagraph('))
same('java sum order', (JVF, 'offset + startPos', 'startPos + offset'))
same('java for skip', (JVF, '''        int skipErrors = 0;
        while (true) {''', '''        for (int skipErrors = 0; ; skipErrors++) {'''), (JVF, '            lib.voikkoFreeGrammarError(cError);\n            skipErrors++;\n', '            lib.voikkoFreeGrammarError(cError);\n'))
same('js for', (JSF, '''			for (var i = 0; i < paragraphs.length; i++) {
				var paragraph = paragraphs[i];
				appendErrorsFromParagraph(errorList, paragraph, offset, language);
				offset += paragraph.length + 1;
			}
''', '''			paragraphs.forEach(function(paragraph) {
				appendErrorsFromParagraph(errorList, paragraph, offset, language);
				offset += paragraph.length + 1;
			});
'''))
same('js concat', (JSF, 'allTokens.push.apply(allTokens, tokensNonNull(text.substring(lastStart)));', 'allTokens = allTokens.concat(tokensNonNull(text.substring(lastStart)));'))
same('js text bytes', (JSF, 'textLen -= sentenceLenBytes;', 'textLen = textLen - sentenceLenBytes;'))
same('js text rest', (JSF, 'textLen -= sentenceLenBytes;', 'textLen = lengthBytesUTF8(text);'))
same('cs while', (CS, 'text.Substring(lastStart, i - lastStart)', 'text.Substring(lastStart, (i - lastStart))'))
