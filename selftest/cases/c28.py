CASES = []


def m(id, prop, file, old, new, *more):
    CASES.append(dict(id=id, expect=[prop] if prop else [], edits=[(file, old, new)] + list(more)))


CB = "common/crypto/cipherBlock.c"
m("c28-salt-fixed", "C28", CB, "cryptoRandomBytes(destination, PKCS5_SALT_LEN);", "memset(destination, 0, PKCS5_SALT_LEN);")
m("c28-salt-short", "C28", CB, "cryptoRandomBytes(destination, PKCS5_SALT_LEN);", "memset(destination, 0, PKCS5_SALT_LEN); cryptoRandomBytes(destination, 4);")
m("c28-final-unchecked", "C28", CB, "    if (!EVP_CipherFinal(this->cipherContext, bufRemainsPtr(destination), &destinationSize))\n        THROW(CryptoError, \"unable to flush\");", "    EVP_CipherFinal(this->cipherContext, bufRemainsPtr(destination), &destinationSize);")
m("c28-update-unchecked", "C28", CB, """        cryptoError(
            !EVP_CipherUpdate(this->cipherContext, destination, &destinationUpdateSize, source, (int)sourceSize),
            "unable to process cipher");""", """        EVP_CipherUpdate(this->cipherContext, destination, &destinationUpdateSize, source, (int)sourceSize);""")
m("c28-header-missing-ok", "C28", CB, "    if (!this->saltDone)\n        THROW(CryptoError, \"cipher header missing\");", "    if (!this->saltDone)\n        FUNCTION_LOG_RETURN(SIZE, 0);")
m("c28-header-unsalted", "C28", CB, "if (!this->saltDone)\n        THROW(CryptoError", "if (!this->saltDone && !this->processDone && this->mode == cipherModeEncrypt)\n        THROW(CryptoError")
m("c28-magic", "C28", CB, "if (!this->raw && memcmp(", "if (!this->raw && this->headerSize == 0 && memcmp(")
m("c28-pack-raw", "C28", CB, "cipherBlockNewP(cipherMode, cipherSpec, .raw = raw)", "cipherBlockNewP(cipherMode, cipherSpec)")
m("c28-filter-add", "C28", CB, "    if (cipherSpecType(cipherSpec) != cipherTypeNone)\n        ioFilterGroupAdd", "    if (cipherSpecType(cipherSpec) != cipherTypeNone && ioFilterGroupSize(filterGroup) == 0)\n        ioFilterGroupAdd")
m("c28-put-main", "C28", "command/backup/db.c.inc", "cipherBlockNewP(cipherModeEncrypt, manifestCipherSpec(manifest))", "cipherBlockNewP(cipherModeEncrypt, cfgCipherSpecMain())")
m("c28-put-size", "C28", "command/backup/db.c.inc", "if (cipherSpecType(manifestCipherSpec(manifest)) != cipherTypeNone)", "if (cipherSpecType(manifestCipherSpec(manifest)) != cipherTypeNone && compressType != compressTypeNone)")
m("c28-walcopy-key", "C28", "command/backup/complete.c.inc", "filterGroup, cipherModeEncrypt, manifestCipherSpec(manifest));", "filterGroup, cipherModeEncrypt, infoArchiveCipherSpec(backupData->archiveInfo));")
m("c28-walcopy-same", "C28", "command/backup/complete.c.inc", """                        cipherBlockFilterGroupAdd(
                            filterGroup, cipherModeEncrypt, manifestCipherSpec(manifest));""", """                        if (archiveCompressType != backupCompressType)
                            cipherBlockFilterGroupAdd(filterGroup, cipherModeEncrypt, manifestCipherSpec(manifest));""")
m("c28-history-plain", "C28", "command/backup/complete.c.inc", """        cipherBlockFilterGroupAdd(
            ioWriteFilterGroup(storageWriteIo(manifestWrite)), cipherModeEncrypt, infoBackupCipherSpec(infoBackup));""", "")
m("c28-history-key", "C28", "command/backup/complete.c.inc", "ioWriteFilterGroup(storageWriteIo(manifestWrite)), cipherModeEncrypt, infoBackupCipherSpec(infoBackup));", "ioWriteFilterGroup(storageWriteIo(manifestWrite)), cipherModeEncrypt, manifestCipherSpec(manifest));")
m("c28-savecopy-key", "C28", "command/backup/process.c.inc", "backupManifestSaveCopy(manifest, cipherSpecManifest, false)", "backupManifestSaveCopy(manifest, manifestCipherSpec(manifest), false)")
m("c28-push-plain-partial", "C28", "command/archive/push/file.c", "if (cipherSpecType(repoData->cipherSpecArchive) != cipherTypeNone)", "if (cipherSpecType(repoData->cipherSpecArchive) != cipherTypeNone && isSegment)")
m("c28-push-main", "C28", "command/archive/push/push.c", ".cipherSpecArchive = cipherSpecDup(infoArchiveCipherSpec(info)),", ".cipherSpecArchive = cipherSpecDup(cfgCipherSpecMainIdx(repoIdx)),")
m("c28-bi-map-plain", "C28", "command/backup/blockIncr.c", "                if (this->encryptParam != NULL)\n                    ioFilterGroupAdd(ioWriteFilterGroup(write), cipherBlockNewPack(this->encryptParam));", "                if (this->encryptParam != NULL && this->blockMapPrior == NULL)\n                    ioFilterGroupAdd(ioWriteFilterGroup(write), cipherBlockNewPack(this->encryptParam));")
m("c28-bi-drop", "C28", "command/backup/blockIncr.c", "if (encrypt != NULL)\n            this->encryptParam", "if (encrypt != NULL && compress != NULL)\n            this->encryptParam")
m("c28-spec-pass", "C28", "common/crypto/spec.c", "this->pub.pass = pckReadBinP(packRead);", "pckReadBinP(packRead);")
m("c28-verify-key", "C28", "command/verify/verify.c", "cipherSpecPack(param, jobData->cipherSpecArchive);", "cipherSpecPack(param, jobData->cipherSpecManifest);")
m("c28-manifest-load", "C28", "command/manifest/manifest.c", "            infoBackupCipherSpec(infoBackup));", "            cfgCipherSpecMain());")

# refactorings
m("c28-r-flush", "", CB, "    if (!EVP_CipherFinal(this->cipherContext, bufRemainsPtr(destination), &destinationSize))\n        THROW(CryptoError, \"unable to flush\");", "    cryptoError(EVP_CipherFinal(this->cipherContext, bufRemainsPtr(destination), &destinationSize) != 1, \"unable to flush\");")
m("c28-r-flush2", "", CB, "    if (!EVP_CipherFinal(this->cipherContext, bufRemainsPtr(destination), &destinationSize))\n        THROW(CryptoError, \"unable to flush\");", "    const bool flushed = EVP_CipherFinal(this->cipherContext, bufRemainsPtr(destination), &destinationSize);\n\n    if (!flushed)\n        THROW(CryptoError, \"unable to flush\");")
m("c28-r-put", "", "command/backup/db.c.inc", """            if (cipherSpecType(manifestCipherSpec(manifest)) != cipherTypeNone)
            {
                ioFilterGroupAdd(
                    ioWriteFilterGroup(storageWriteIo(write)), cipherBlockNewP(cipherModeEncrypt, manifestCipherSpec(manifest)));

                repoChecksum = true;
            }""", """            const CipherSpec *const spec = manifestCipherSpec(manifest);

            cipherBlockFilterGroupAdd(ioWriteFilterGroup(storageWriteIo(write)), cipherModeEncrypt, spec);
            repoChecksum |= cipherSpecType(spec) != cipherTypeNone;""")
m("c28-r-push", "", "command/archive/push/file.c", """                    if (cipherSpecType(repoData->cipherSpecArchive) != cipherTypeNone)
                    {
                        ioFilterGroupAdd(
                            ioWriteFilterGroup(storageWriteIo(destination[repoListIdx])),
                            cipherBlockNewP(cipherModeEncrypt, repoData->cipherSpecArchive));
                    }""", """                    cipherBlockFilterGroupAdd(
                        ioWriteFilterGroup(storageWriteIo(destination[repoListIdx])), cipherModeEncrypt, repoData->cipherSpecArchive);""")
m("c28-r-init", "", CB, """            cryptoError(
                !EVP_CipherInit_ex(this->cipherContext, this->cipher, NULL, key, initVector, this->mode == cipherModeEncrypt),
                "unable to initialize cipher");""", """            const int encryptMode = this->mode == cipherModeEncrypt ? 1 : 0;

            if (EVP_CipherInit_ex(this->cipherContext, this->cipher, NULL, key, initVector, encryptMode) == 0)
                cryptoError(true, "unable to initialize cipher");""")
m("c28-r-history", "", "command/backup/complete.c.inc", """        cipherBlockFilterGroupAdd(
            ioWriteFilterGroup(storageWriteIo(manifestWrite)), cipherModeEncrypt, infoBackupCipherSpec(infoBackup));""", """        const CipherSpec *const historySpec = infoBackupCipherSpec(infoBackup);

        if (cipherSpecType(historySpec) != cipherTypeNone)
        {
            IoFilterGroup *const historyGroup = ioWriteFilterGroup(storageWriteIo(manifestWrite));

            ioFilterGroupAdd(historyGroup, cipherBlockNewP(cipherModeEncrypt, historySpec));
        }""")
