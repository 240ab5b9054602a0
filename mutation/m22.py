F='persistencefile.cpp'; R='retainedmessagesdb.cpp'; S='subscriptionstore.cpp'; D='sessionsandsubscriptionsdb.cpp'
M=[
('B','noUnw',[(F,"        if (std::uncaught_exceptions() > uncaughtExceptions)\n            discard = true;\n","")]),
('B','unwWrong',[(F,"std::uncaught_exceptions() > uncaughtExceptions","std::uncaught_exceptions() > uncaughtExceptions + 1")]),
('B','noFerror',[(F,"        if (!discard && ferror(f))","        if (discard && ferror(f))")]),
('B','ferrorNoDiscard',[(F,"            discard = true;\n            throw std::runtime_error(formatString(\"Writing","            throw std::runtime_error(formatString(\"Writing")]),
('B','noHash',[(F,"        if (!discard)\n            hashFile();","        if (!discard && filePath.size() > 4096)\n            hashFile();")]),
('B','flushIgnored',[(F,"if (fflush(f) != 0)","if (fflush(f) > 0)")]),
('B','syncIgnored',[(F,"if (!discard && fsync(f->_fileno) != 0)","if (!discard && fsync(f->_fileno) == -2)")]),
('B','closeIgnored',[(F,"if (fclose(f2) < 0)","if (fclose(f2) > 0)")]),
('B','discardInv',[(F,"        if (discard)\n        {\n            unlink","        if (discard && false)\n        {\n            unlink")]),
('B','writeNoDiscard',[(F,"        discard = true;\n        throw std::runtime_error(formatString(\"Error writing","        throw std::runtime_error(formatString(\"Error writing")]),
('B','writeNoThrow',[(F,"    if (fwrite(ptr, size, n, s) != n)","    if (fwrite(ptr, size, n, s) == 0)")]),
('B','rawWrite',[(F,"    writeUint32(s.size());\n    writeCheck(s.c_str(), 1, s.size(), f);","    writeUint32(s.size());\n    fwrite(s.c_str(), 1, s.size(), f);")]),
('B','openFinal',[(F,"    int fd = open(filePathTemp.c_str(), O_RDWR | O_CREAT | O_TRUNC","    int fd = open(filePath.c_str(), O_RDWR | O_CREAT | O_TRUNC")]),
('B','noTrunc',[(F,"O_RDWR | O_CREAT | O_TRUNC","O_RDWR | O_CREAT")]),
('B','tempSame',[(F,'formatString("%s.newfile.%s", filePath.c_str(), getSecureRandomString(8).c_str())','filePath')]),
('B','unlinkFirst',[(F,"            if (rename(filePathTemp.c_str(), filePath.c_str()) < 0)","            unlink(filePath.c_str());\n            if (rename(filePathTemp.c_str(), filePath.c_str()) < 0)")]),
('B','copySame',[(F,'filePath + "." + detectedVersionString','filePath')]),
('B','hashFrom0',[(F,"    fseek(f, TOTAL_HEADER_SIZE, SEEK_SET);\n\n    unsigned int","    fseek(f, MAGIC_STRING_LENGH, SEEK_SET);\n\n    unsigned int")]),
('B','hashPlace',[(F,"    fseek(f, MAGIC_STRING_LENGH, SEEK_SET);\n\n    writeCheck(md","    fseek(f, 0, SEEK_SET);\n\n    writeCheck(md")]),
('B','hashNot',[(F,"    writeCheck(md_value, output_len, 1, f);","    if (output_len == HASH_SIZE + 1)\n        writeCheck(md_value, output_len, 1, f);")]),
('B','verifySkip',[(F,"    verifyHash();\n","    if (openMode != FileMode::read)\n        verifyHash();\n")]),
('B','cmpShort',[(F,"std::memcmp(md_from_disk, md_value, output_len) != 0","std::memcmp(md_from_disk, md_value, output_len / 8) != 0")]),
('B','cmpInv',[(F,"std::memcmp(md_from_disk, md_value, output_len) != 0","std::memcmp(md_from_disk, md_value, output_len) > 0")]),
('B','noAside',[(F,"        if (rename(filePath.c_str(), filePathCorrupt.c_str()) == 0)","        if (openMode == FileMode::read || rename(filePath.c_str(), filePathCorrupt.c_str()) == 0)")]),
('B','oneRead',[(F,"    readCheck(md_from_disk, 1, HASH_SIZE, f);\n","    readCheck(md_from_disk, 1, HASH_SIZE, f);\n    fseek(f, TOTAL_HEADER_SIZE + 8, SEEK_SET);\n")]),
('B','unknownVer',[(D,'    else\n        throw std::runtime_error("Unknown file version.");','    else\n        readVersion = ReadVersion::v8;')]),
('B','swallow',[(S,"    catch (PersistenceFileCantBeOpened &ex)\n    {\n        logger->logf(LOG_WARNING, \"File '%s' is not there (yet)\", filePath.c_str());\n    }\n}\n\nssize_t","    catch (std::exception &ex)\n    {\n        logger->logf(LOG_WARNING, \"File '%s' is not there (yet)\", filePath.c_str());\n    }\n}\n\nssize_t")]),
('B','cantBe',[(F,"    if (memcmp_","")]) if False else ('B','cantBe',[(F,'throw std::runtime_error("Error reading version string.")','throw PersistenceFileCantBeOpened("Error reading version string.")')]),
('B','dtorThrow',[(R,"    try\n    {\n        closeFile();\n    }\n    catch(std::exception &ex)\n    {\n        logger->log(LOG_ERROR) << ex.what();\n    }","    closeFile();")]),
('B','abortKeep',[(S,"            db.dontSaveTmpFile();\n","")]),
('B','reset',[(F,"void PersistenceFile::dontSaveTmpFile()\n{\n    this->discard = true;","void PersistenceFile::dontSaveTmpFile()\n{\n    this->discard = f == nullptr;")]),
('B','rclose',[(R,"        writeUint32(written_count);\n    }\n\n    PersistenceFile::closeFile();","        writeUint32(written_count);\n        PersistenceFile::closeFile();\n    }\n")]),
('B','noRDiscard',[(F,"            discard = true;\n            throw std::runtime_error(formatString(\"Flush","            throw std::runtime_error(formatString(\"Flush")]),
('B','layout',[(F,"    fseek(f, MAGIC_STRING_LENGH, SEEK_SET);\n    writeCheck(buf.data(), 1, HASH_SIZE, f);","    fseek(f, MAGIC_STRING_LENGH, SEEK_SET);\n    writeCheck(buf.data(), 1, MAGIC_STRING_LENGH, f);")]),
('B','readErr',[(F,"        if (ferror(f))\n            throw std::runtime_error(formatString(\"Error reading: %s\", strerror(errno)));\n\n        EVP_DigestUpdate(digestContext.get(), buf.data(), n);\n    }\n\n    EVP_DigestFinal_ex(digestContext.get(), md_value, &output_len);\n\n    if (output_len != HASH_SIZE)\n        throw std::runtime_error(\"Impossible: calculated hash size wrong length\");\n\n    fseek","        EVP_DigestUpdate(digestContext.get(), buf.data(), n);\n    }\n\n    EVP_DigestFinal_ex(digestContext.get(), md_value, &output_len);\n\n    if (output_len != HASH_SIZE)\n        throw std::runtime_error(\"Impossible: calculated hash size wrong length\");\n\n    fseek")]),
('K','rcVar',[(F,"        if (fflush(f) != 0)","        const int rc = fflush(f);\n        if (rc != 0)")]),
('K','closeVar',[(F,"        if (fclose(f2) < 0)","        const int close_result = fclose(f2);\n        if (close_result != 0)")]),
('K','helper',[(F,"void PersistenceFile::closeFile()\n{","static bool flushed(FILE *x)\n{\n    return fflush(x) == 0;\n}\n\nvoid PersistenceFile::closeFile()\n{"),(F,"        if (fflush(f) != 0)","        if (!flushed(f))")]),
('K','eq',[(F,"std::memcmp(md_from_disk, md_value, output_len) != 0","std::memcmp(md_value, md_from_disk, HASH_SIZE) != 0")]),
('K','early',[(F,"    if (openMode == FileMode::write && !filePathTemp.empty() && ! filePath.empty())\n    {","    if (openMode != FileMode::write || filePathTemp.empty() || filePath.empty())\n        return;\n    {")]),
('K','order',[(F,"        if (discard)\n        {\n            unlink(filePathTemp.c_str());\n        }\n        else\n        {","        if (!discard)\n        {"),(F,"                close(dir_fd);\n            }\n        }","                close(dir_fd);\n            }\n        }\n        else\n            unlink(filePathTemp.c_str());")]),
('K','loop',[(F,"    while (!feof(f))\n    {\n        size_t n = fread(buf.data(), 1, buf.size(), f);\n\n        if (ferror(f))\n            throw std::runtime_error(formatString(\"Error reading: %s\", strerror(errno)));\n\n        EVP_DigestUpdate(digestContext.get(), buf.data(), n);\n    }\n\n    EVP_DigestFinal_ex(digestContext.get(), md_value, &output_len);\n\n    if (output_len != HASH_SIZE)\n        throw std::runtime_error(\"Impossible: calculated hash size wrong length\");\n\n    fseek","    do\n    {\n        const size_t n = fread(buf.data(), 1, buf.size(), f);\n\n        if (ferror(f))\n            throw std::runtime_error(formatString(\"Error reading: %s\", strerror(errno)));\n\n        EVP_DigestUpdate(digestContext.get(), buf.data(), n);\n    } while (!feof(f));\n\n    EVP_DigestFinal_ex(digestContext.get(), md_value, &output_len);\n\n    if (output_len != HASH_SIZE)\n        throw std::runtime_error(\"Impossible: calculated hash size wrong length\");\n\n    fseek")]),
]
