W = "storage/posix/write.c"
S = "storage/sftp/write.c"
CASES = [
    dict(id="c01-sync-late", expect=["C01"], edits=[(W, "if (this->syncFile)\n", "if (this->syncFile && !this->atomic)\n")]),
    dict(id="c01-path", expect=["C01"], edits=[(W, "        // Sync the path\n        if (this->syncPath)", "        // Sync the path\n        if (this->syncPath && !this->atomic)")]),
    dict(id="c01-close", expect=["C01"], edits=[(W, "        THROW_ON_SYS_ERROR_FMT(close(this->fd) == -1, FileCloseError, STORAGE_ERROR_WRITE_CLOSE, strZ(this->nameTmp));\n        this->fd = -1;", "close(this->fd);\n        this->fd = -1;")]),
    dict(id="c01-write", expect=["C01"], edits=[(W, "if (write(this->fd, bufPtrConst(buffer), bufUsed(buffer)) != (ssize_t)bufUsed(buffer))", "if (write(this->fd, bufPtrConst(buffer), bufUsed(buffer)) == -1)")]),
    dict(id="c01-param", expect=["C01"], edits=[("storage/storage.c", "!param.noSyncFile, !param.noSyncPath", "!param.noSyncPath, !param.noSyncFile")]),
    dict(id="c01-sftp", expect=["C01"], edits=[(S, "                if (rc == LIBSSH2_ERROR_EAGAIN)\n                    THROW_FMT(FileSyncError", "                if (rc == LIBSSH2_ERROR_SFTP_PROTOCOL)\n                    LOG_DEBUG(\"x\");\n                else if (rc == LIBSSH2_ERROR_EAGAIN)\n                    THROW_FMT(FileSyncError")]),
    dict(id="c01-iow", expect=["C01"], edits=[("common/io/write.c", "if (bufRemains(this->output) == 0 || (ioFilterGroupDone(this->pub.filterGroup) && !bufEmpty(this->output)))", "if (bufRemains(this->output) == 0)")]),
    dict(id="c01-r1", expect=[], edits=[(W, "    // Close if the file has not already been closed\n    if (this->fd != -1)\n    {", "    if (this->fd == -1)\n        FUNCTION_LOG_RETURN_VOID();\n    {")]),
    dict(id="c01-r2", expect=[], edits=[(W, "    if (write(this->fd, bufPtrConst(buffer), bufUsed(buffer)) != (ssize_t)bufUsed(buffer))", "    const ssize_t n = write(this->fd, bufPtrConst(buffer), bufUsed(buffer));\n    if ((size_t)n != bufUsed(buffer))")]),
    dict(id="c01-r3", expect=[], edits=[(W, "static void\nstorageWritePosixClose(THIS_VOID)", "static void\nstorageWritePosixSync(StorageWritePosix *const this)\n{\n    if (!this->syncFile)\n        return;\n    const int r = fsync(this->fd);\n    if (r < 0)\n        THROW_SYS_ERROR_FMT(FileSyncError, STORAGE_ERROR_WRITE_SYNC, strZ(this->nameTmp));\n}\n\nstatic void\nstorageWritePosixClose(THIS_VOID)"), (W, "        if (this->syncFile)\n            THROW_ON_SYS_ERROR_FMT(fsync(this->fd) == -1, FileSyncError, STORAGE_ERROR_WRITE_SYNC, strZ(this->nameTmp));", "storageWritePosixSync(this);")]),
    dict(id="c01-r4", expect=[], edits=[("common/io/write.c", "if (bufRemains(this->output) == 0 || (ioFilterGroupDone(this->pub.filterGroup) && !bufEmpty(this->output)))", "const bool last = ioFilterGroupDone(this->pub.filterGroup);\nif (bufRemains(this->output) == 0 || (last && bufUsed(this->output) > 0))")]),
]
