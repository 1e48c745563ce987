package io.dingodb.sdk.common;
/** Key and value bytes; the SDK's own class drags in code that needs libraries absent here. */
public class KeyValue {
    private byte[] key, value;
    public KeyValue(byte[] k, byte[] v) { key = k; value = v; }
    public void setKey(byte[] k) { key = k; }
    public void setValue(byte[] v) { value = v; }
    public byte[] getKey() { return key; }
    public byte[] getValue() { return value; }
}
