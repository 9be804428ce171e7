package com.finproto.user;

import com.finproto.codec.BinaryCodec;
import io.netty.buffer.ByteBuf;
import java.nio.charset.StandardCharsets;
import java.util.ArrayList;
import java.util.List;
import java.util.Objects;

/** A message that a user of the library might write. */
public class Blob implements BinaryCodec {
  private byte small;
  private long large;
  private float ratio;
  private String code;
  private String tag;
  private String note;
  private List<Item> items;

  public byte getSmall() {
    return small;
  }

  public void setSmall(byte small) {
    this.small = small;
  }

  public long getLarge() {
    return large;
  }

  public void setLarge(long large) {
    this.large = large;
  }

  public float getRatio() {
    return ratio;
  }

  public void setRatio(float ratio) {
    this.ratio = ratio;
  }

  public String getCode() {
    return code;
  }

  public void setCode(String code) {
    this.code = code;
  }

  public String getTag() {
    return tag;
  }

  public void setTag(String tag) {
    this.tag = tag;
  }

  public String getNote() {
    return note;
  }

  public void setNote(String note) {
    this.note = note;
  }

  public List<Item> getItems() {
    return items;
  }

  public void setItems(List<Item> items) {
    this.items = items;
  }

  @Override
  public void encode(ByteBuf b) {
    b.writeByte(small);
    b.writeLongLE(large);
    b.writeFloat(ratio);
    writeFixedString(b, code, 7, '0', true);
    writeFixedString(b, tag, 5, '\0', false);
    byte[] n = note == null ? new byte[0] : note.getBytes(StandardCharsets.UTF_8);
    b.writeShortLE(n.length);
    b.writeBytes(n);
    b.writeShort(items == null ? 0 : items.size());
    if (items != null) for (Item i : items) i.encode(b);
  }

  @Override
  public void decode(ByteBuf b) {
    small = b.readByte();
    large = b.readLongLE();
    ratio = b.readFloat();
    code = readFixedString(b, 7, '0', true);
    tag = readFixedString(b, 5, '\0', false);
    int n = b.readUnsignedShortLE();
    note = n == 0 ? null : b.readSlice(n).toString(StandardCharsets.UTF_8);
    int k = b.readUnsignedShort();
    items = k == 0 ? null : new ArrayList<>();
    for (int i = 0; i < k; i++) {
      Item x = new Item();
      x.decode(b);
      items.add(x);
    }
  }

  @Override
  public int hashCode() {
    return Objects.hash(small, large, ratio, code, tag, note, items);
  }

  @Override
  public boolean equals(Object o) {
    if (o == null || o.getClass() != Blob.class) return false;
    Blob x = (Blob) o;
    return small == x.small && large == x.large && Float.compare(ratio, x.ratio) == 0 && Objects.equals(code, x.code)
        && Objects.equals(tag, x.tag) && Objects.equals(note, x.note) && Objects.equals(items, x.items);
  }

  @Override
  public String toString() {
    return "Blob [small=" + small + ", large=" + large + ", ratio=" + ratio + ", code=" + code + ", tag=" + tag + ", note=" + note
        + ", items=" + items + "]";
  }
}
