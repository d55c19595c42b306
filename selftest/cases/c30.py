CASES = []


def m(id, prop, file, old, new, *more):
    CASES.append(dict(id=id, expect=[prop] if prop else [], edits=[(file, old, new)] + list(more)))


TC, TS, PH, SF = "common/io/tls/client.c", "common/io/tls/server.c", "protocol/helper.c", "storage/sftp/storage.c"
m("c30-label", "C30", TC, "strChr(host, '.') >= (int)(strSize(host) - strSize(name)))", "strChr(host, '.') > 0)")
m("c30-suffix", "C30", TC, "strcasecmp(strZ(name) + 1, strZ(host) + strSize(host) - strSize(name) + 1) == 0 &&", "strSize(name) > 0 &&")
m("c30-null", "C30", TC, "    tlsCertNameVerify(name);\n", "    if (strZ(name)[0] == '*')\n        tlsCertNameVerify(name);\n")
m("c30-alt-ip", "C30", TC, "            if (!altNameFound)\n" if False else "if (!altNameFound)", "if (!result)")
m("c30-verify", "C30", TC, "if (verifyResult != X509_V_OK)", "if (verifyResult != X509_V_OK && verifyResult != X509_V_ERR_CERT_HAS_EXPIRED)")
m("c30-name", "C30", TC, "if (!nameResult)", "if (!nameResult && strChr(this->host, '.') >= 0)")
m("c30-cert", "C30", TC, "if (certificate == NULL)", "if (certificate == NULL && strEmpty(host))")
m("c30-ca-path", "C30", TC, "if (param.caFile != NULL || param.caPath != NULL)", "if (param.caFile != NULL)")
m("c30-ca-default", "C30", TC, "strZNull(param.caFile), strZNull(param.caPath)) != 1", "strZNull(param.caFile), NULL) != 1")
m("c30-version", "C30", "common/io/tls/common.c", "SSL_CTX_set_min_proto_version(result, TLS1_2_VERSION)", "SSL_CTX_set_min_proto_version(result, TLS1_VERSION)")
m("c30-server-auth", "C30", TS, "ioSessionAuthenticatedSet(ioSession, clientCert != NULL);", "ioSessionAuthenticatedSet(ioSession, true);")
m("c30-server-verify", "C30", TS, "    if (this->verifyPeer)\n" if False else "SSL_CTX_set_verify(this->context, SSL_VERIFY_PEER | SSL_VERIFY_CLIENT_ONCE, NULL);", "SSL_CTX_set_verify(this->context, SSL_VERIFY_NONE, NULL);")
m("c30-auth-order", "C30", PH, """                const String *const clientAuthList = strDup(
                    varStr(kvGet(cfgOptionKv(cfgOptTlsServerAuth), VARSTR(ioSessionPeerName(tlsSession)))));

                // Error if the client is not authorized for anything
                if (clientAuthList == NULL)
                    THROW(AccessError, "access denied");

                // Load parameter list from the client
                StringList *const paramList = pckReadStrLstP(pckReadNew(command.param));
                strLstInsert(paramList, 0, cfgBin());
                cfgLoad(strLstSize(paramList), strLstPtr(paramList));
""", """                // Load parameter list from the client
                StringList *const paramList = pckReadStrLstP(pckReadNew(command.param));
                strLstInsert(paramList, 0, cfgBin());
                cfgLoad(strLstSize(paramList), strLstPtr(paramList));

                const String *const clientAuthList = strDup(
                    varStr(kvGet(cfgOptionKv(cfgOptTlsServerAuth), VARSTR(ioSessionPeerName(tlsSession)))));

                // Error if the client is not authorized for anything
                if (clientAuthList == NULL)
                    THROW(AccessError, "access denied");
""")
m("c30-auth-prefix", "C30", PH, "if (strEq(strTrim(strLstGet(authList, authListIdx)), stanza))", "if (strBeginsWith(stanza, strTrim(strLstGet(authList, authListIdx))))")
m("c30-auth-nostanza", "C30", PH, "if (strEqZ(authListStr, \"*\"))", "if (strEqZ(authListStr, \"*\") || stanza == NULL)")
m("c30-auth-star", "C30", PH, "if (strEqZ(authListStr, \"*\"))", "if (strEndsWithZ(authListStr, \"*\"))")
m("c30-auth-skip", "C30", PH, "if (!protocolServerAuthorize(clientAuthList, cfgOptionStrNull(cfgOptStanza)))", "if (cfgOptionTest(cfgOptStanza) && !protocolServerAuthorize(clientAuthList, cfgOptionStrNull(cfgOptStanza)))")
m("c30-null-server", "C30", PH, "            // Set result to NULL so there is no server for the caller to use. The TLS session will be freed when the temp mem\n            // context ends.\n            result = NULL;", "            protocolServerMove(result, memContextPrior());")
m("c30-remote-verify", "C30", PH, "host, cfgOptionUInt64(cfgOptIoTimeout), cfgOptionUInt64(cfgOptProtocolTimeout), true,", "host, cfgOptionUInt64(cfgOptIoTimeout), cfgOptionUInt64(cfgOptProtocolTimeout), isRepo,")
m("c30-remote-ca", "C30", PH, ".caPath = cfgOptionIdxStrNull(isRepo ? cfgOptRepoHostCaPath : cfgOptPgHostCaPath, hostIdx),", ".caPath = isRepo ? cfgOptionIdxStrNull(cfgOptRepoHostCaPath, hostIdx) : NULL,")
m("c30-gcs-auth", "C30", "storage/gcs/storage.c", "httpUrlHost(this->authUrl), timeout, timeout, verifyPeer, .caFile = caFile, .caPath = caPath),", "httpUrlHost(this->authUrl), timeout, timeout, false, .caFile = caFile, .caPath = caPath),")
m("c30-azure-host", "C30", "storage/azure/storage.c", "sckClientNew(this->host, port, timeout, timeout), this->host, timeout, timeout, verifyPeer,", "sckClientNew(this->host, port, timeout, timeout), account, timeout, timeout, verifyPeer,")
m("c30-key-group", "C30", "common/io/tls/common.c", "keyInfo.mode & (S_IRWXG | S_IRWXO)", "keyInfo.mode & S_IRWXO")
m("c30-key-owner", "C30", "common/io/tls/common.c", "if (keyInfo.userId != userId() && keyInfo.userId != 0)", "if (keyInfo.userId != userId() && keyInfo.userId != 0 && keyInfo.mode & S_IRWXO)")
m("c30-sftp-strict", "C30", SF, "if (rc == LIBSSH2_KNOWNHOST_CHECK_MATCH)", "if (rc == LIBSSH2_KNOWNHOST_CHECK_MATCH || rc == LIBSSH2_KNOWNHOST_CHECK_NOTFOUND)")
m("c30-sftp-mismatch", "C30", SF, "if (rc == LIBSSH2_KNOWNHOST_CHECK_MISMATCH || rc == LIBSSH2_KNOWNHOST_CHECK_FAILURE)", "if (rc == LIBSSH2_KNOWNHOST_CHECK_FAILURE)")
m("c30-sftp-fp", "C30", SF, "if (strcmp(fingerprint, strZ(this->hostFingerprint)) != 0)", "if (strncmp(fingerprint, strZ(this->hostFingerprint), 8) != 0)")
m("c30-sftp-nokey", "C30", SF, """                THROW_FMT(
                    ServiceError,
                    "libssh2_session_hostkey failed""", """                LOG_WARN_FMT(
                    "libssh2_session_hostkey failed""")
# the same in other words
m("c30-r-verify", None, TC, "if (verifyResult != X509_V_OK)", "if (!(verifyResult == X509_V_OK))")
m("c30-r-label", None, TC, "strChr(host, '.') >= (int)(strSize(host) - strSize(name)))", "!(strChr(host, '.') < (int)(strSize(host) - strSize(name))))")
m("c30-r-star", None, TC, "strZ(name)[0] == '*' && strZ(name)[1] == '.' && strSize(name) > 2 &&", "strSize(name) > 2 && *strZ(name) == '*' && strZ(name)[1] == '.' &&")
m("c30-r-auth", None, PH, """                    result = true;
                    break;
                }
            }
        }
    }
    MEM_CONTEXT_TEMP_END();

    FUNCTION_TEST_RETURN(BOOL, result);""", """                    result = true;
                    authListIdx = strLstSize(authList);
                }
            }
        }
    }
    MEM_CONTEXT_TEMP_END();

    FUNCTION_TEST_RETURN(BOOL, result);""")
m("c30-r-server", None, TS, "            ioSessionAuthenticatedSet(ioSession, clientCert != NULL);\n" if False else "ioSessionAuthenticatedSet(ioSession, clientCert != NULL);", "if (clientCert != NULL)\n            ioSessionAuthenticatedSet(ioSession, true);")
