#!/usr/bin/env python3
# Behaviour-preserving rewrites of the library and the programs, to see that the checks stay quiet on them:
#   refactors.py DIR    copies /repo to DIR and applies them all; then: VERIF_REPO=DIR python3 check.py P04
import subprocess, sys
P='mbus/mbus-protocol.c'; A='mbus/mbus-protocol-aux.c'; S='mbus/mbus-serial.c'; T='mbus/mbus-tcp.c'; M='mbus/mbus.c'
E=[]
def e(f,a,b,n=1): E.append((f,a,b,n))
# --- reception: other loops, other calls, one byte at a time
e(T,'''    do {
retry:
        if (len + remaining > PACKET_BUFF_SIZE)''','''    do {
        if (len + remaining > PACKET_BUFF_SIZE)''')
e(T,'''        nread = read(handle->fd, &buff[len], remaining);
        switch (nread) {
        case -1:
            if (errno == EINTR)
                goto retry;
''','''        do {
            nread = recv(handle->fd, &buff[len], (size_t) remaining, 0);
        } while (nread < 0 && errno == EINTR);

        switch (nread) {
        case -1:
''')
e(S,'''        if ((nread = read(handle->fd, &buff[len], remaining)) == -1)
        {''','''        // byte by byte
        nread = read(handle->fd, &buff[len], 1);
        if (nread < 0)
        {''')
e(S,'''        if (nread == 0)
        {
            timeouts++;

            if (timeouts >= 3)
            {''','''        if (!nread)
        {
            if (++timeouts > 2)
            {''')
# --- sending
e(T,'''    if ((ret = write(handle->fd, buff, len)) == len)
    {''','''    ret = send(handle->fd, buff, len, 0);
    if (ret == len)
    {''')
# --- checksum and pack
e(P,'''            cksum = frame->control;
            cksum += frame->address;
            cksum += frame->control_information;

            for (i = 0; i < frame->data_size; i++)
            {
                cksum += frame->data[i];
            }

            break;
''','''            {
                unsigned int sum = 0;

                i = frame->data_size;
                while (i > 0)
                    sum += frame->data[--i];

                sum += frame->control + frame->address + frame->control_information;
                cksum = sum % 256;
            }
            break;
''')
e(P,'''                for (i = 0; i < frame->data_size; i++)
                {
                    data[offset++] = frame->data[i];
                }

                data[offset++] = frame->checksum;''','''                memcpy(data + offset, frame->data, frame->data_size);
                offset += frame->data_size;

                data[offset++] = frame->checksum;''')
e(P,'''                frame->data_size = len - 3;
                for (i = 0; i < frame->data_size; i++)
                {
                    frame->data[i] = data[7 + i];
                }
''','''                frame->data_size = len - 3;
                memmove(frame->data, &data[7], frame->data_size);
''')
# --- records
e(P,'''            record->data_len = mbus_dif_datalength_lookup(record->drh.dib.dif);
''','''            int fixed_len = mbus_dif_datalength_lookup(record->drh.dib.dif);
            record->data_len = fixed_len;
''')
e(P,'''        data->header.id_bcd[0]       = frame->data[0];
        data->header.id_bcd[1]       = frame->data[1];
        data->header.id_bcd[2]       = frame->data[2];
        data->header.id_bcd[3]       = frame->data[3];
''','''        for (j = 0; j < 4; j++)
            data->header.id_bcd[j] = frame->data[j];
''')
e(P,'''            val = (val * 10);

            if (bcd_data[i-1]>>4 < 0xA)
            {
                val += ((bcd_data[i-1]>>4) & 0xF);
            }

            val = (val * 10) + ( bcd_data[i-1] & 0xF);
''','''            int high = bcd_data[i-1] / 16, low = bcd_data[i-1] % 16;

            val = 100 * val + 10 * (high > 9 ? 0 : high) + low;
''')
e(P,'''        while(len > 0) {
            dst[i++] = src[--len];
        }
''','''        for (i = 0; i < len; i++)
            dst[i] = src[len - 1 - i];
''')
e(P,'''    while((len+6) < max_len)
    {
        if (src[i] == '\\0')
        {
            break;
        }
''','''    for (; src[i] != '\\0'; )
    {
        if (len + 6 >= max_len)
            break;
''')
e(P,'''    size_t len = 0, buff_size = 8192;''','''    size_t len = 0, buff_size = 1 << 15;''',-1)
# --- protocol
e(A,'''    while (more_frames)
    {
        if (retry > handle->max_data_retry)
        {
            // Give up
            retval = 1;
            break;
        }
''','''    for (;;)
    {
        if (!more_frames)
            break;

        if (handle->max_data_retry < retry)
        {
            retval = 1;
            break;
        }
''')
e(A,'''    frame = mbus_frame_new(MBUS_FRAME_TYPE_LONG);

    if (mbus_frame_select_secondary_pack(frame, (char*) secondary_addr_str) == -1)
    {
        MBUS_ERROR("%s: Failed to pack selection mbus frame.\\n", __PRETTY_FUNCTION__);
        mbus_frame_free(frame);
        return -1;
    }

    if (mbus_send_frame(handle, frame) == -1)
    {
        MBUS_ERROR("%s: Failed to send mbus frame.\\n", __PRETTY_FUNCTION__);
        mbus_frame_free(frame);
        return -1;
    }

    mbus_frame_free(frame);
    return 0;
''','''    int ret = 0;

    frame = mbus_frame_new(MBUS_FRAME_TYPE_LONG);

    if (mbus_frame_select_secondary_pack(frame, (char*) secondary_addr_str) == -1)
    {
        MBUS_ERROR("%s: Failed to pack selection mbus frame.\\n", __PRETTY_FUNCTION__);
        ret = -1;
    }
    else if (mbus_send_frame(handle, frame) == -1)
    {
        MBUS_ERROR("%s: Failed to send mbus frame.\\n", __PRETTY_FUNCTION__);
        ret = -1;
    }

    mbus_frame_free(frame);
    return ret;
''')
e(A,'''    if ((mask = strdup(addr_mask)) == NULL)
    {''','''    char copy[17];

    mask = memcpy(copy, addr_mask, sizeof(copy));
    if (mask == NULL)
    {''')
e(A,'free(mask);','(void) mask;',-1)
e(A,'''    for (i = 0; i <= handle->max_search_retry; i++)
    {
        ret = mbus_select_secondary_address(handle, mask);
''','''    int left = handle->max_search_retry;
    ret = MBUS_PROBE_NOTHING;

    while (left-- >= 0)
    {
        ret = mbus_select_secondary_address(handle, mask);
''')
# --- normalisation
e(A,'''                *value_out *= pow(10.0, (vib->vife[0] & 0x07) - 6);
                break;
''','''                {
                    static const double f[8] = { 1e-6, 1e-5, 1e-4, 1e-3, 1e-2, 1e-1, 1e0, 1e1 };

                    *value_out *= f[code & 7];
                }
                break;
''')
e(A,'''    if ((status_byte & MBUS_DATA_FIXED_STATUS_FORMAT_MASK) == MBUS_DATA_FIXED_STATUS_FORMAT_BCD)
    {
        value = mbus_data_bcd_decode(data, 4);
    }
    else
    {
        mbus_data_long_decode(data, 4, &value);
    }
''','''    if ((status_byte & MBUS_DATA_FIXED_STATUS_FORMAT_MASK) != MBUS_DATA_FIXED_STATUS_FORMAT_BCD)
        mbus_data_long_decode(data, 4, &value);
    else
        value = mbus_data_bcd_decode(data, 4);
''')
# --- connections
e(T,'''        if ((handle->fd = socket(p->ai_family, p->ai_socktype, p->ai_protocol)) == -1)
        {
            continue;
        }

        if (connect(handle->fd, p->ai_addr, p->ai_addrlen) == -1)
        {
            close(handle->fd);
            continue;
        }

        break; // if we get here, we must have connected successfully
    }
''','''        int fd = socket(p->ai_family, p->ai_socktype | SOCK_CLOEXEC, p->ai_protocol);

        if (fd >= 0)
        {
            if (connect(fd, p->ai_addr, p->ai_addrlen) == 0)
            {
                handle->fd = fd;
                break;
            }

            close(fd);
        }
    }
''')
e(T,'''    memset(&hints, 0, sizeof hints);
    hints.ai_family = AF_UNSPEC;
    hints.ai_socktype = SOCK_STREAM;
''','''    hints = (struct addrinfo) { .ai_family = AF_UNSPEC, .ai_socktype = SOCK_STREAM };
''')
e(S,'''    if (cfsetispeed(term, B2400) != 0 || cfsetospeed(term, B2400) != 0)
    {''','''    if (cfsetspeed(term, B2400))
    {''')
e(S,'''    if ((handle->fd = open(device, O_RDWR | O_NOCTTY)) < 0)
    {''','''    handle->fd = open(device, O_RDWR | O_NOCTTY | O_CLOEXEC);
    if (handle->fd < 0)
    {''')
e(S,'''    term->c_cflag |= (CS8|CREAD|CLOCAL);
    term->c_cflag |= PARENB;
''','''    term->c_cflag = CLOCAL | CREAD | PARENB | CS8;
''')
e(A,'''    if ((handle = (mbus_handle *) malloc(sizeof(mbus_handle))) == NULL)''','''    if ((handle = calloc(1, sizeof(*handle))) == NULL)''',2)
e(A,'''    handle->recv_event = NULL;
    handle->send_event = NULL;
    handle->scan_progress = NULL;
    handle->found_event = NULL;
''','',2)
# --- data
e(P,'''    if ((record = (mbus_data_record *)malloc(sizeof(mbus_data_record))) == NULL)
    {
        return NULL;
    }

    memset(record, 0, sizeof(mbus_data_record));

    record->next = NULL;
    return record;
''','''    return (mbus_data_record *) calloc(1, sizeof(mbus_data_record));
''')
e(P,'''            frame->data[frame->data_size++] = frame_data->data_fix.cnt1_val[0];
            frame->data[frame->data_size++] = frame_data->data_fix.cnt1_val[1];
            frame->data[frame->data_size++] = frame_data->data_fix.cnt1_val[2];
            frame->data[frame->data_size++] = frame_data->data_fix.cnt1_val[3];
''','''            memcpy(frame->data + frame->data_size, frame_data->data_fix.cnt1_val, 4);
            frame->data_size += 4;
''')
e(P,'''            if ((tariff = mbus_data_record_tariff(record)) >= 0)
            {
                len += snprintf(&buff[len], sizeof(buff) - len, "        <Tariff>%ld</Tariff>\\n",
                                tariff);
                len += snprintf(&buff[len], sizeof(buff) - len, "        <Device>%d</Device>\\n",
                                mbus_data_record_device(record));
            }
''','''            tariff = mbus_data_record_tariff(record);
            if (tariff >= 0)
            {
                int device = mbus_data_record_device(record);

                len += snprintf(&buff[len], sizeof(buff) - len,
                                "        <Tariff>%ld</Tariff>\\n        <Device>%d</Device>\\n", tariff, device);
            }
''')
e(P,'''            timeinfo = gmtime (&(record->timestamp));
            strftime(timestamp,21,"%Y-%m-%dT%H:%M:%SZ",timeinfo);
            len += snprintf(&buff[len], sizeof(buff) - len,
                            "        <Timestamp>%s</Timestamp>\\n", timestamp);
        }

        len += snprintf(&buff[len], sizeof(buff) - len, "    </DataRecord>\\n\\n");
''','''            struct tm utc;

            timeinfo = gmtime_r(&(record->timestamp), &utc);
            snprintf(timestamp, sizeof(timestamp), "%04d-%02d-%02dT%02d:%02d:%02dZ", timeinfo->tm_year + 1900,
                     timeinfo->tm_mon + 1, timeinfo->tm_mday, timeinfo->tm_hour, timeinfo->tm_min, timeinfo->tm_sec);
            len += snprintf(&buff[len], sizeof(buff) - len,
                            "        <Timestamp>%s</Timestamp>\\n", timestamp);
        }

        len += snprintf(&buff[len], sizeof(buff) - len, "    </DataRecord>\\n\\n");
''',-2)
e(A,'''        err = mbus_recv_frame(handle, &reply);
        if (err != MBUS_RECV_RESULT_OK &&
            err != MBUS_RECV_RESULT_INVALID)
            break;

        received = 1;
''','''        err = mbus_recv_frame(handle, &reply);
        if (err == MBUS_RECV_RESULT_OK || err == MBUS_RECV_RESULT_INVALID)
            received |= 1;
        else
            return received;
''')
# --- programs
for t in ('serial', 'tcp'):
    B='bin/mbus-%s-request-data.c' % t
    if t == 'serial': e(B,'''    if (mbus_send_ping_frame(handle, MBUS_ADDRESS_NETWORK_LAYER, 1) == -1)
    {
        return 0;
    }

    //
    // resend SND_NKE, maybe the first get lost
    //

    if (debug)
        printf("%s: debug: sending init frame #2\\n", __PRETTY_FUNCTION__);

    if (mbus_send_ping_frame(handle, MBUS_ADDRESS_NETWORK_LAYER, 1) == -1)
    {
        return 0;
    }
''','''    int n;

    for (n = 0; n < 2; n++)
    {
        if (n && debug)
            printf("%s: debug: sending init frame #2\\n", __PRETTY_FUNCTION__);

        if (mbus_send_ping_frame(handle, MBUS_ADDRESS_NETWORK_LAYER, 1) == -1)
            return 0;
    }
''')
    e(B,'''    printf("%s", xml_result);
''','''    fputs(xml_result, stdout);
    fflush(stdout);
''')
    e('bin/mbus-%s-scan.c' % t,'''    for (i = 0; i <= handle->max_search_retry; i++)
    {''','''    i = handle->max_search_retry + 1;
    while (i-- > 0)
    {''')
# --- traces
e(P,'''    fprintf(stderr, "[%s] %s (%03zu):", timestamp, label, len);

    for (i = 0; i < len; i++)
    {
       fprintf(stderr, " %02X", (unsigned char) buff[i]);
    }
''','''    fputc('[', stderr);
    fputs(timestamp, stderr);
    fprintf(stderr, "] %s (%03u):", label, (unsigned) len);

    for (i = 0; i != len; ++i)
    {
        unsigned char c = (unsigned char) buff[i];
        fputc(' ', stderr);
        fputc("0123456789ABCDEF"[c / 16], stderr);
        fputc("0123456789ABCDEF"[c % 16], stderr);
    }
''')
for t in ('serial-request-data','tcp-request-data','serial-request-data-multi-reply','tcp-request-data-multi-reply','tcp-raw-send','serial-scan','tcp-scan','serial-scan-secondary','serial-set-address','tcp-application-reset'):
    e('bin/mbus-%s.c' % t, '        mbus_register_send_event(handle, &mbus_dump_send_event);\n        mbus_register_recv_event(handle, &mbus_dump_recv_event);', '        mbus_register_recv_event(handle, mbus_dump_recv_event);\n        mbus_register_send_event(handle, mbus_dump_send_event);')
# --- commands and selection: verdicts by switch, common exits
e(A,'''    memset((void *)&reply, 0, sizeof(mbus_frame));
    ret = mbus_recv_frame(handle, &reply);

    if (ret == MBUS_RECV_RESULT_TIMEOUT)
    {
        return MBUS_PROBE_NOTHING;
    }

    if (ret == MBUS_RECV_RESULT_INVALID)
    {
        /* check for more data (collision) */
        mbus_purge_frames(handle);
        return MBUS_PROBE_COLLISION;
    }

    if (ret != MBUS_RECV_RESULT_OK)
    {
        MBUS_ERROR("%s: Failed to receive the reply for address [%s].\\n", __PRETTY_FUNCTION__, mask);
        return MBUS_PROBE_ERROR;
    }

    /* check for more data (collision) */
    if (mbus_purge_frames(handle))
    {
        return MBUS_PROBE_COLLISION;
    }

    if (mbus_frame_type(&reply) == MBUS_FRAME_TYPE_ACK)
    {
        return MBUS_PROBE_SINGLE;
    }
''','''    memset((void *)&reply, 0, sizeof(mbus_frame));

    switch (mbus_recv_frame(handle, &reply))
    {
        case MBUS_RECV_RESULT_OK:
            ret = mbus_purge_frames(handle) ? MBUS_PROBE_COLLISION
                : mbus_frame_type(&reply) == MBUS_FRAME_TYPE_ACK ? MBUS_PROBE_SINGLE
                : MBUS_PROBE_NOTHING;
            break;

        case MBUS_RECV_RESULT_TIMEOUT:
            return MBUS_PROBE_NOTHING;

        case MBUS_RECV_RESULT_INVALID:
            mbus_purge_frames(handle);
            ret = MBUS_PROBE_COLLISION;
            break;

        default:
            MBUS_ERROR("%s: Failed to receive the reply for address [%s].\\n", __PRETTY_FUNCTION__, mask);
            ret = MBUS_PROBE_ERROR;
    }

    if (ret != MBUS_PROBE_NOTHING)
        return ret;
''')
e(A,'''        if (probe_ret == MBUS_PROBE_COLLISION)
        {
            MBUS_ERROR("%s: The address mask [%s] matches more than one device.\\n",
                       __PRETTY_FUNCTION__,
                       address->secondary);
            return -1;
        }
        else if (probe_ret == MBUS_PROBE_NOTHING)
        {
            MBUS_ERROR("%s: The selected secondary address [%s] does not match any device.\\n",
                       __PRETTY_FUNCTION__,
                       address->secondary);
            return -1;
        }
        else if (probe_ret == MBUS_PROBE_ERROR)
        {
            MBUS_ERROR("%s: Failed to probe secondary address [%s].\\n",
                       __PRETTY_FUNCTION__,
                       address->secondary);
            return -1;
        }
''','''        if (probe_ret != MBUS_PROBE_SINGLE)
        {
            const char *why = "cannot be probed";

            if (probe_ret == MBUS_PROBE_COLLISION)
                why = "matches more than one device";
            else if (probe_ret == MBUS_PROBE_NOTHING)
                why = "does not match any device";

            MBUS_ERROR("%s: The secondary address [%s] %s.\\n", __PRETTY_FUNCTION__, address->secondary, why);
            return -1;
        }
''')
e(A,'''        for (i = i_start; i <= i_end; i++)
        {
            mask[pos] = '0'+i;
''','''        char digit;

        for (digit = '0' + i_start; digit - '0' <= i_end; digit++)
        {
            mask[pos] = digit;
''')
e(A,'''        // ignore whitespace
        if (isspace(src[i]))
            continue;

        buf[0] = src[i];
        buf[1] = src[++i];

        // abort at non hex value
        if (!isxdigit(buf[0]) || !isxdigit(buf[1]))
            break;

        val = strtoul((const char *) buf, NULL, 16);

        // abort at end of buffer
        if (result >= dst_len)
            break;

        dst[result++] = (unsigned char) val;''','''        int n;

        // ignore whitespace
        if (isspace(src[i]))
            continue;

        if (result >= dst_len)
            break;

        val = 0;
        for (n = 0; n < 2 && isxdigit(src[i + n]); n++)
            val = 16 * val + (isdigit(src[i + n]) ? src[i + n] - '0' : tolower(src[i + n]) - 'a' + 10);

        if (n < 2)
            break;

        i++;
        dst[result] = val;
        result += 1;''')
# --- parsing of records
e(P,'''            if ((frame->data[i] & 0xFF) == MBUS_DIB_DIF_IDLE_FILLER)
            {
              i++;
              continue;
            }
''','''            while (i < frame->data_size && frame->data[i] == MBUS_DIB_DIF_IDLE_FILLER)
                i++;

            if (i >= frame->data_size)
                break;
''')
e(P,'''                record->data_len = frame->data_size - i;
                for (j = 0; j < record->data_len; j++)
                {
                    record->data[j] = frame->data[i++];
                }
''','''                record->data_len = frame->data_size - i;
                memcpy(record->data, &frame->data[i], record->data_len);
                i = frame->data_size;
''')
e(P,'''                if(frame->data[i] <= 0xBF)
                    record->data_len = frame->data[i];
                else if(frame->data[i] >= 0xC0 && frame->data[i] <= 0xC9)
                    record->data_len = frame->data[i] - 0xC0; // two digits per byte
                else if(frame->data[i] >= 0xD0 && frame->data[i] <= 0xD9)
                    record->data_len = frame->data[i] - 0xD0; // two digits per byte
                else if(frame->data[i] >= 0xE0 && frame->data[i] <= 0xEF)
                    record->data_len = frame->data[i] - 0xE0;
                else if(frame->data[i] >= 0xF0 && frame->data[i] <= 0xF4)
                    record->data_len = (frame->data[i] - 0xEC) * 4;
                else if(frame->data[i] == 0xF5)
                    record->data_len = 48;
                else if(frame->data[i] == 0xF6)
                    record->data_len = 64;
''','''                const unsigned char lvar = frame->data[i];

                if (lvar < 0xC0)
                    record->data_len = lvar;
                else switch (lvar >> 4)
                {
                    case 0xC:
                    case 0xD:
                        if ((lvar & 15) <= 9)
                            record->data_len = lvar & 15;
                        break;
                    case 0xE:
                        record->data_len = lvar & 15;
                        break;
                    default:
                        if (lvar <= 0xF4)
                            record->data_len = 16 + 4 * (lvar - 0xF0);
                        else if (lvar < 0xF7)
                            record->data_len = lvar == 0xF5 ? 48 : 64;
                }
''')
e(P,'''                record->drh.vib.vife[0] = frame->data[i];
                record->drh.vib.nvife++;
''','''                record->drh.vib.vife[record->drh.vib.nvife++] = frame->data[i];
''')
# --- addresses
e(P,'''    strncpy(tmp, &address[14], 2); tmp[2] = 0;
    val = strtol(tmp, NULL, 16);
    frame->data[7] = val & 0xFF;

    strncpy(tmp, &address[12], 2); tmp[2] = 0;
    val = strtol(tmp, NULL, 16);
    frame->data[6] = val & 0xFF;

    strncpy(tmp,  &address[8], 4); tmp[4] = 0;
    val = strtol(tmp, NULL, 16);
    frame->data[4] = (val>>8) & 0xFF;
    frame->data[5] =  val     & 0xFF;
''','''    for (i = 4; i < 8; i++)
    {
        memcpy(tmp, address + 2 * i, 2);
        tmp[2] = '\\0';
        val = (int) strtoul(tmp, NULL, 16);
        frame->data[i] = (unsigned char) val;
    }
''')
e(P,'''    if (strlen(value) != 16)
        return 0;

    for (i = 0; i < 16; i++)
    {
        if (!isxdigit(value[i]))
            return 0;
    }

    return 1;''','''    for (i = 0; isxdigit((unsigned char) value[i]); i++)
    {
        if (i == 16)
            break;
    }

    return i == 16 && value[16] == '\\0';''')
# --- values
e(P,'''        for (i = bcd_data_size; i > 0; i--)
        {
            val = (val << 8) | bcd_data[i-1];
        }
''','''        for (i = bcd_data_size; i--; )
            val = val * 256 + bcd_data[i];
''')
def main(d):
    subprocess.check_call(['rm', '-rf', d]); subprocess.check_call(['cp', '-a', '/repo', d]); bad = 0
    for f, a, b, n in E:
        p = d + '/' + f; s = open(p, encoding='latin-1', newline='').read(); c = s.count(a)
        if c == 0 or (n > 0 and c != n): print('NOT APPLIED (%d times): %s: %s' % (c, f, a[:70])); bad = 1; continue
        open(p, 'w', encoding='latin-1', newline='').write(s.replace(a, b))
    return bad
if __name__ == '__main__': sys.exit(main(sys.argv[1]))
